/* The stand-in device. Its contents come from the file named by
 * VK_YUBI_DEVICE, read at each connection:
 *   url U                the connector answers here only
 *   pass HEX             the password of authentication key 1
 *   refuse create|auth   where a wrong password is noticed
 *   obj ID TYPE DOMAINS CAPBITS ALGO LABELHEX PUBHEX
 *   spare ID PUBHEX      the next key to be generated
 *   sig ID HASHHEX DERHEX
 *   fail CALL N RC       the Nth call of CALL in this process fails (0: all)
 *   log PATH             a line per call is appended here
 * Using a session after it was destroyed ends the process.
 * The harness, in the same process, can also arm a failure from now on. */
#include "yubihsm.h"
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

struct obj { unsigned id, type, domains, algo; uint8_t caps[8]; char label[41]; uint8_t pub[256]; size_t publen; };
struct sig { unsigned id; uint8_t hash[128]; size_t hashlen; uint8_t der[512]; size_t derlen; };
struct spare { unsigned id; uint8_t pub[256]; size_t publen; };
struct fail { char call[32]; int n, rc; };
struct yh_connector { char url[512]; int up; };
struct yh_session { volatile int authed, dead, wrong; };

#define MAX 300
static struct obj objs[MAX]; static int nobjs;
static struct sig sigs[MAX]; static int nsigs;
static struct spare spares[MAX]; static int nspares, usedspares;
static struct fail fails[MAX]; static int nfails;
static uint8_t pass[512]; static size_t passlen;
static char url[512], logpath[512];
static int refuse_auth;
static struct { char call[32]; int n; } counts[64]; static int ncounts;

static char armed_call[32]; static int armed_in, armed_rc, slow_ms;
void vk_arm(const char *call, int in, int rc) { snprintf(armed_call, sizeof armed_call, "%s", call); armed_in = in; armed_rc = rc; }
int vk_disarm(void) { int a = armed_call[0] != 0; armed_call[0] = 0; return !a; }
void vk_slow(int ms) { slow_ms = ms; }

static size_t unhex(const char *s, uint8_t *out, size_t max) {
  size_t n = 0; unsigned b;
  while (s[0] && s[1] && n < max && sscanf(s, "%2x", &b) == 1) { out[n++] = b; s += 2; }
  return n;
}

static void load(void) {
  const char *p = getenv("VK_YUBI_DEVICE");
  nobjs = nsigs = nfails = nspares = usedspares = refuse_auth = 0; passlen = 0; url[0] = logpath[0] = 0;
  ncounts = 0;
  FILE *f = p ? fopen(p, "r") : NULL;
  if (!f) return;
  static char line[4096], a[2048], b[2048], c[2048];
  while (fgets(line, sizeof line, f)) {
    if (sscanf(line, "url %511s", url) == 1) continue;
    if (sscanf(line, "pass %2047s", a) == 1) { passlen = unhex(a, pass, sizeof pass); continue; }
    if (sscanf(line, "refuse %2047s", a) == 1) { refuse_auth = !strcmp(a, "auth"); continue; }
    if (sscanf(line, "log %511s", logpath) == 1) continue;
    struct obj *o = &objs[nobjs];
    if (nobjs < MAX && sscanf(line, "obj %u %u %u %2047s %u %2047s %2047s", &o->id, &o->type, &o->domains, a, &o->algo, b, c) == 7) {
      memset(o->caps, 0, 8); unhex(a, o->caps, 8);
      memset(o->label, 0, sizeof o->label); unhex(b, (uint8_t *)o->label, 40);
      o->publen = unhex(c, o->pub, sizeof o->pub); nobjs++; continue;
    }
    struct sig *s = &sigs[nsigs];
    if (nsigs < MAX && sscanf(line, "sig %u %2047s %2047s", &s->id, a, b) == 3) {
      s->hashlen = unhex(a, s->hash, sizeof s->hash); s->derlen = unhex(b, s->der, sizeof s->der); nsigs++; continue;
    }
    struct spare *sp = &spares[nspares];
    if (nspares < MAX && sscanf(line, "spare %u %2047s", &sp->id, a) == 2) { sp->publen = unhex(a, sp->pub, sizeof sp->pub); nspares++; continue; }
    struct fail *fl = &fails[nfails];
    if (nfails < MAX && sscanf(line, "fail %31s %d %d", fl->call, &fl->n, &fl->rc) == 3) nfails++;
  }
  fclose(f);
}

static void note(const char *fmt, const char *call, unsigned id) {
  if (!logpath[0]) return;
  FILE *f = fopen(logpath, "a");
  if (f) { fprintf(f, fmt, call, id); fclose(f); }
}

static yh_rc enter(const char *call, unsigned id) {
  int i, n;
  for (i = 0; i < ncounts && strcmp(counts[i].call, call); i++) ;
  if (i == ncounts) { strcpy(counts[ncounts].call, call); counts[ncounts++].n = 0; }
  n = ++counts[i].n;
  note("%s %u\n", call, id);
  if (armed_call[0] && !strcmp(armed_call, call) && --armed_in == 0) { armed_call[0] = 0; return armed_rc; }
  for (i = 0; i < nfails; i++)
    if (!strcmp(fails[i].call, call) && (fails[i].n == 0 || fails[i].n == n)) return fails[i].rc;
  return YHR_SUCCESS;
}

static yh_rc live(yh_session *s) {
  if (!s) return YHR_INVALID_PARAMS;
  if (s->dead) { fprintf(stderr, "fatal error: a destroyed session was used\n"); abort(); }
  return s->authed ? YHR_SUCCESS : YHR_DEVICE_INV_SESSION;
}
#define CHECK(x) do { yh_rc rc_ = (x); if (rc_ != YHR_SUCCESS) return rc_; } while (0)

yh_rc yh_init(void) { return YHR_SUCCESS; }
const char *yh_strerror(yh_rc err) {
  static char buf[64];
  if (err == YHR_SUCCESS) return "Success";
  snprintf(buf, sizeof buf, "stand-in error %d", (int)err);
  return buf;
}
static uint8_t verb;
yh_rc yh_set_verbosity(uint8_t v) { verb = v; return YHR_SUCCESS; }
yh_rc yh_get_verbosity(uint8_t *v) { *v = verb; return YHR_SUCCESS; }
void yh_set_debug_output(FILE *o) { (void)o; }

yh_rc yh_init_connector(const char *u, yh_connector **c) {
  load();
  CHECK(enter("init_connector", 0));
  if (!u || !c) return YHR_INVALID_PARAMS;
  *c = calloc(1, sizeof **c);
  snprintf((*c)->url, sizeof (*c)->url, "%s", u);
  return YHR_SUCCESS;
}
yh_rc yh_set_connector_option(yh_connector *c, yh_connector_option o, const void *v) { return c && v && o ? YHR_SUCCESS : YHR_INVALID_PARAMS; }
yh_rc yh_connect_best(yh_connector **cs, size_t n, int *idx) {
  size_t i;
  CHECK(enter("connect_best", 0));
  for (i = 0; i < n; i++)
    if (url[0] && !strcmp(cs[i]->url, url)) { cs[i]->up = 1; if (idx) *idx = (int)i; return YHR_SUCCESS; }
  return YHR_CONNECTOR_NOT_FOUND;
}
yh_rc yh_disconnect(yh_connector *c) { CHECK(enter("disconnect", 0)); c->up = 0; return YHR_SUCCESS; }
yh_rc yh_send_plain_msg(yh_connector *c, yh_cmd cmd, const uint8_t *data, size_t n, yh_cmd *rcmd, uint8_t *res, size_t *rn) {
  CHECK(enter("send_plain_msg", cmd));
  if (!c || !c->up) return YHR_CONNECTOR_ERROR;
  if (*rn < n) return YHR_BUFFER_TOO_SMALL;
  memcpy(res, data, n); *rn = n; *rcmd = cmd | 0x80;
  return YHR_SUCCESS;
}
static yh_rc newsession(yh_connector *c, uint16_t id, int wrong, uint8_t *ctx, size_t ctxlen, yh_session **s) {
  if (!c || !c->up) return YHR_CONNECTOR_ERROR;
  if (ctxlen != YH_CONTEXT_LEN) return YHR_INVALID_PARAMS;
  if (id != 1) return YHR_DEVICE_OBJ_NOT_FOUND;
  if (wrong && !refuse_auth) return YHR_CRYPTOGRAM_MISMATCH;
  memset(ctx, 7, ctxlen);
  *s = calloc(1, sizeof **s);
  (*s)->wrong = wrong;
  return YHR_SUCCESS;
}
yh_rc yh_create_session_derived(yh_connector *c, uint16_t id, const uint8_t *pw, size_t n, bool re, uint8_t *ctx, size_t ctxlen, yh_session **s) {
  (void)re;
  CHECK(enter("create_session", id));
  if (!pw || !n) return YHR_INVALID_PARAMS;
  return newsession(c, id, n != passlen || memcmp(pw, pass, n), ctx, ctxlen, s);
}
yh_rc yh_create_session(yh_connector *c, uint16_t id, const uint8_t *k, size_t kn, const uint8_t *m, size_t mn, bool re, uint8_t *ctx, size_t ctxlen, yh_session **s) {
  (void)re;
  CHECK(enter("create_session", id));
  if (!k || !m || kn != 16 || mn != 16) return YHR_INVALID_PARAMS;
  return newsession(c, id, kn + mn != passlen || memcmp(k, pass, 16) || memcmp(m, pass + 16, 16), ctx, ctxlen, s);
}
yh_rc yh_authenticate_session(yh_session *s, uint8_t *ctx, size_t n) {
  if (!s || n != YH_CONTEXT_LEN || ctx[0] != 7) return YHR_INVALID_PARAMS;
  if (s->dead) live(s);
  CHECK(enter("authenticate", 0));
  if (s->wrong) return YHR_DEVICE_AUTH_FAIL;
  s->authed = 1;
  return YHR_SUCCESS;
}
yh_rc yh_destroy_session(yh_session **s) {
  if (!s || !*s) return YHR_INVALID_PARAMS;
  if ((*s)->dead) live(*s);
  (*s)->dead = 1;
  *s = NULL;
  return YHR_SUCCESS; /* also called by finalizers: not counted */
}
yh_rc yh_util_get_device_info(yh_connector *c, uint8_t *ma, uint8_t *mi, uint8_t *pa, uint32_t *se, uint8_t *lt, uint8_t *lu, yh_algorithm *al, size_t *n) {
  size_t i, k = sizeof yh_algorithms / sizeof yh_algorithms[0];
  CHECK(enter("device_info", 0));
  if (!c || !c->up) return YHR_CONNECTOR_ERROR;
  *ma = 2; *mi = 1; *pa = 3; *se = 0x89abcdef; *lt = 62; *lu = 17;
  if (*n < k) return YHR_BUFFER_TOO_SMALL;
  for (i = 0; i < k; i++) al[i] = yh_algorithms[i].algorithm;
  *n = k - 2; /* this one knows fewer */
  return YHR_SUCCESS;
}
/* as the SDK does, a listing fills in the id, the type and the sequence only */
yh_rc yh_util_list_objects(yh_session *s, uint16_t id, yh_object_type type, uint16_t domains, const yh_capabilities *caps, yh_algorithm algo, const char *label, yh_object_descriptor *out, size_t *n) {
  size_t k = 0; int i, j;
  CHECK(live(s));
  CHECK(enter("list_objects", 0));
  for (i = 0; i < nobjs; i++) {
    struct obj *o = &objs[i];
    int ok = (!id || o->id == id) && (!type || o->type == (unsigned)type) && (!domains || (o->domains & domains)) && (!algo || o->algo == (unsigned)algo) && (!label || !strcmp(label, o->label));
    for (j = 0; caps && j < 8; j++) ok = ok && (o->caps[j] & caps->capabilities[j]) == caps->capabilities[j];
    if (!ok) continue;
    if (k == *n) return YHR_BUFFER_TOO_SMALL;
    memset(&out[k], 0, sizeof out[k]);
    out[k].id = o->id; out[k].type = o->type; out[k].sequence = 1;
    k++;
  }
  *n = k;
  return YHR_SUCCESS;
}
static struct obj *find(unsigned id, unsigned type) {
  int i;
  for (i = 0; i < nobjs; i++) if (objs[i].id == id && objs[i].type == type) return &objs[i];
  return NULL;
}
yh_rc yh_util_get_object_info(yh_session *s, uint16_t id, yh_object_type type, yh_object_descriptor *d) {
  struct obj *o;
  CHECK(live(s));
  CHECK(enter("object_info", id));
  if (!(o = find(id, type))) return YHR_DEVICE_OBJ_NOT_FOUND;
  memset(d, 0, sizeof *d);
  memcpy(d->capabilities.capabilities, o->caps, 8);
  d->id = o->id; d->len = 0x1234; d->domains = o->domains; d->type = o->type; d->algorithm = o->algo;
  d->sequence = 3; d->origin = YH_ORIGIN_IMPORTED; memcpy(d->label, o->label, sizeof o->label);
  d->delegated_capabilities.capabilities[7] = 0x5a;
  return YHR_SUCCESS;
}
yh_rc yh_util_get_pubkey(yh_session *s, uint16_t id, uint8_t *data, size_t *n, yh_algorithm *algo) {
  struct obj *o;
  CHECK(live(s));
  CHECK(enter("get_pubkey", id));
  if (!(o = find(id, YH_ASYMMETRIC))) return YHR_DEVICE_OBJ_NOT_FOUND;
  if (*n < o->publen) return YHR_BUFFER_TOO_SMALL;
  memcpy(data, o->pub, o->publen); *n = o->publen;
  if (algo) *algo = o->algo;
  return YHR_SUCCESS;
}
yh_rc yh_util_generate_key_ec(yh_session *s, uint16_t *id, const char *label, uint16_t domains, const yh_capabilities *caps, yh_algorithm algo) {
  struct obj *o = &objs[nobjs];
  CHECK(live(s));
  CHECK(enter("generate_key", algo));
  if (usedspares == nspares || nobjs == MAX) return YHR_DEVICE_STORAGE_FAILED;
  memset(o, 0, sizeof *o);
  o->id = spares[usedspares].id; o->type = YH_ASYMMETRIC; o->domains = domains; o->algo = algo;
  memcpy(o->caps, caps->capabilities, 8);
  if (label) snprintf(o->label, sizeof o->label, "%s", label);
  memcpy(o->pub, spares[usedspares].pub, o->publen = spares[usedspares].publen);
  usedspares++; nobjs++;
  *id = o->id;
  return YHR_SUCCESS;
}
yh_rc yh_util_sign_ecdsa(yh_session *s, uint16_t id, const uint8_t *in, size_t n, uint8_t *out, size_t *outn) {
  int i;
  CHECK(live(s));
  if (slow_ms) { usleep(slow_ms * 1000); CHECK(live(s)); }
  CHECK(enter("sign_ecdsa", id));
  if (n != 32) return YHR_WRONG_LENGTH;
  if (!find(id, YH_ASYMMETRIC)) return YHR_DEVICE_OBJ_NOT_FOUND;
  for (i = 0; i < nsigs; i++)
    if (sigs[i].id == id && sigs[i].hashlen == n && !memcmp(sigs[i].hash, in, n)) {
      if (*outn < sigs[i].derlen) return YHR_BUFFER_TOO_SMALL;
      memcpy(out, sigs[i].der, sigs[i].derlen); *outn = sigs[i].derlen;
      return YHR_SUCCESS;
    }
  return YHR_DEVICE_INV_DATA;
}
/* names separated by commas, colons or bars; bit n is in byte 7-n/8 */
yh_rc yh_capabilities_to_num(const char *names, yh_capabilities *r) {
  char *copy = strdup(names), *save = NULL, *t;
  memset(r, 0, sizeof *r);
  for (t = strtok_r(copy, ",:|", &save); t; t = strtok_r(NULL, ",:|", &save)) {
    size_t i, k = sizeof yh_capability / sizeof yh_capability[0];
    for (i = 0; i < k && strcmp(yh_capability[i].name, t); i++) ;
    if (i == k) { free(copy); return YHR_INVALID_PARAMS; }
    r->capabilities[7 - yh_capability[i].bit / 8] |= 1 << (yh_capability[i].bit % 8);
  }
  free(copy);
  return YHR_SUCCESS;
}
yh_rc yh_num_to_capabilities(const yh_capabilities *num, const char *res[], size_t *n) {
  size_t i, k = 0;
  for (i = 0; i < sizeof yh_capability / sizeof yh_capability[0]; i++)
    if (num->capabilities[7 - yh_capability[i].bit / 8] & (1 << (yh_capability[i].bit % 8))) {
      if (k == *n) return YHR_BUFFER_TOO_SMALL;
      res[k++] = yh_capability[i].name;
    }
  *n = k;
  return YHR_SUCCESS;
}
