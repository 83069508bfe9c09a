package comp

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/philhofer/seth"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/vk"
)

// item is what the fake compiler is told, inside a source, to report.
type item struct {
	Name string                   `json:"name,omitempty"`
	Code string                   `json:"code,omitempty"`
	Map  string                   `json:"map,omitempty"`
	ABI  []seth.ABIDescriptor     `json:"-"`
	Raw  []map[string]interface{} `json:"abi,omitempty"`
	Type string                   `json:"type,omitempty"`
	Msg  string                   `json:"msg,omitempty"`
}

func (it item) String() string {
	b, err := json.Marshal(it)
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	return "@solc" + string(b) + "@"
}

// items finds the items of a source, as the fake compiler does.
func items(body string) []item {
	var out []item
	for _, m := range strings.Split(body, "@solc")[1:] {
		end := strings.Index(m, "}@")
		if end < 0 {
			continue
		}
		var it struct {
			item
			ABI []seth.ABIDescriptor `json:"abi"`
		}
		if json.Unmarshal([]byte(m[:end+1]), &it) != nil {
			continue
		}
		it.item.ABI = it.ABI
		out = append(out, it.item)
	}
	return out
}

// expect is the reference: what compiling the sources must give. A non-empty
// fail is a message the error must carry.
func expect(sources []seth.Source) (b *seth.CompiledBundle, fail string) {
	s := append([]seth.Source(nil), sources...)
	sort.Slice(s, func(i, j int) bool { return s[i].Filename < s[j].Filename })
	b = new(seth.CompiledBundle)
	for _, src := range s {
		b.Filenames = append(b.Filenames, src.Filename)
		b.Sources = append(b.Sources, src.Body)
		its := items(src.Body)
		for k, it := range its {
			// a compiler reports one contract of a name per file
			superseded := false
			for _, later := range its[k+1:] {
				superseded = superseded || it.Type == "" && later.Type == "" && later.Name == it.Name
			}
			if superseded {
				continue
			}
			if it.Type != "" {
				msg := src.Filename + ": " + it.Type + ": " + it.Msg
				if it.Type == "Warning" {
					b.Warnings = append(b.Warnings, msg)
				} else if fail == "" {
					fail = msg
				}
				continue
			}
			code, err := hex.DecodeString(it.Code)
			if err != nil {
				if fail == "" {
					fail = "*"
				}
				continue
			}
			c := seth.CompiledContract{Name: it.Name, Code: code, Sourcemap: it.Map, ABI: it.ABI}
			b.Contracts = append(b.Contracts, c)
		}
	}
	return b, fail
}

// sorted puts a bundle's contracts in an order of their own.
func sorted(b *seth.CompiledBundle) *seth.CompiledBundle {
	c := *b
	c.Contracts = append([]seth.CompiledContract(nil), b.Contracts...)
	key := func(c seth.CompiledContract) string {
		return fmt.Sprintf("%q %x %q %v", c.Name, c.Code, c.Sourcemap, c.ABI)
	}
	sort.SliceStable(c.Contracts, func(i, j int) bool { return key(c.Contracts[i]) < key(c.Contracts[j]) })
	return &c
}

func genItem(t *rapid.T) item {
	var it item
	switch rapid.IntRange(0, 11).Draw(t, "item") {
	case 0:
		it.Type, it.Msg = "Warning", rapid.StringMatching(`[a-z "<é]{0,12}`).Draw(t, "msg")
		return it
	case 1:
		it.Type = rapid.SampledFrom([]string{"ParserError", "TypeError", "InternalCompilerError"}).Draw(t, "error type")
		it.Msg = rapid.StringMatching(`[a-z ]{3,12}`).Draw(t, "msg")
		if rapid.IntRange(0, 2).Draw(t, "really") > 0 {
			it.Type = "Warning"
		}
		return it
	}
	it.Name = rapid.SampledFrom([]string{"A", "B", "Token", "A2"}).Draw(t, "contract")
	it.Code = hex.EncodeToString(gen.Bytes(0, 20).Draw(t, "code"))
	if oneIn(t, 25, "unlinked") {
		it.Code += "__lib.sol:Lib____________"
	}
	it.Map = rapid.SampledFrom([]string{"", "0:1:0:-", "1:2:1;:9;2::2;;", "5:1:0:i;;;"}).Draw(t, "map")
	for i, n := 0, rapid.IntRange(0, 2).Draw(t, "descriptors"); i < n; i++ {
		d := genDesc(t)
		it.Raw = append(it.Raw, d.json())
	}
	return it
}

func genBody(t *rapid.T) string {
	var sb strings.Builder
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "pieces"); i < n; i++ {
		if rapid.Bool().Draw(t, "text") {
			sb.WriteString(rapid.StringMatching(`[a-c{}@<>&\né \x00;,:|/\-]{0,9}`).Draw(t, "piece"))
		} else {
			sb.WriteString(genItem(t).String())
		}
	}
	return sb.String()
}

var names = []string{"a", "b", "ab", "a.sol", "b.sol", "ba.sol", "a-b.sol", "dir/a.sol", "b.sola"}

func genSources(t *rapid.T, prev []seth.Source) []seth.Source {
	var out []seth.Source
	if len(prev) > 0 && rapid.IntRange(0, 3).Draw(t, "derive") > 0 {
		out = append(out, prev...)
		i := rapid.IntRange(0, len(out)-1).Draw(t, "which")
		// the neighbour in the order of names
		byName := append([]seth.Source(nil), out...)
		sort.Slice(byName, func(i, j int) bool { return byName[i].Filename < byName[j].Filename })
		next := -1
		for k := range byName {
			if byName[k].Filename == out[i].Filename && k+1 < len(byName) {
				for m := range out {
					if out[m].Filename == byName[k+1].Filename {
						next = m
					}
				}
			}
		}
		switch rapid.IntRange(0, 9).Draw(t, "change") {
		case 0: // none
		case 1: // another order
			j := rapid.IntRange(0, len(out)-1).Draw(t, "with")
			out[i], out[j] = out[j], out[i]
		case 2: // text moves to the next source
			if next >= 0 {
				n := rapid.IntRange(0, len(out[i].Body)).Draw(t, "kept")
				out[i].Body, out[next].Body = out[i].Body[:n], out[i].Body[n:]+out[next].Body
			}
		case 3: // bodies change places
			j := rapid.IntRange(0, len(out)-1).Draw(t, "with")
			out[i].Body, out[j].Body = out[j].Body, out[i].Body
		case 4:
			out[i].Body = genBody(t)
		case 5:
			out[i].Body += rapid.SampledFrom([]string{" ", "\x00", "\n", "x"}).Draw(t, "appended")
		case 6: // letters move between names
			if next >= 0 && len(out[next].Filename) > 1 {
				a, b := out[i].Filename+out[next].Filename[:1], out[next].Filename[1:]
				out[i].Filename, out[next].Filename = a, b
			}
		case 8, 9: // text moves to the next source, or back, without the two being told apart by what separates them
			sep := rapid.SampledFrom([]string{";", ",", "\n", "\x00", ":", "|", "/", " ", "-", "\n\n"}).Draw(t, "separator")
			if next < 0 {
				break
			}
			if strings.Contains(out[next].Body, sep) {
				at := strings.Index(out[next].Body, sep)
				if rapid.Bool().Draw(t, "last") {
					at = strings.LastIndex(out[next].Body, sep)
				}
				out[i].Body, out[next].Body = out[i].Body+sep+out[next].Body[:at], out[next].Body[at+len(sep):]
			} else if at := strings.LastIndex(out[i].Body, sep); at >= 0 {
				out[i].Body, out[next].Body = out[i].Body[:at], out[i].Body[at+len(sep):]+sep+out[next].Body
			} else {
				out[next].Body = rapid.SampledFrom([]string{"", "a"}).Draw(t, "before") + sep + out[next].Body
			}
		case 7: // another source, or one less
			if len(out) > 1 && rapid.Bool().Draw(t, "less") {
				out = append(out[:i:i], out[i+1:]...)
			} else {
				out = append(out, seth.Source{Filename: rapid.SampledFrom(names).Draw(t, "name"), Body: rapid.SampledFrom([]string{"", "a"}).Draw(t, "body")})
			}
		}
	} else if rapid.IntRange(0, 24).Draw(t, "many") == 0 {
		// many sources, or much text
		n := rapid.IntRange(3, 500).Draw(t, "how many")
		for i := 0; i < n; i++ {
			out = append(out, seth.Source{Filename: fmt.Sprintf("m%d", i*7919%1000), Body: fmt.Sprintf("// %d", i)})
		}
		for i := 0; i < 3; i++ {
			out[rapid.IntRange(0, n-1).Draw(t, "which")].Body = genBody(t)
		}
		if rapid.Bool().Draw(t, "much") {
			at := rapid.IntRange(0, n-1).Draw(t, "where")
			out[at].Body = strings.Repeat(fmt.Sprintf("// %d ", n), 30000) + "\n" + out[at].Body
		}
	} else {
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "sources"); i < n; i++ {
			out = append(out, seth.Source{Filename: rapid.SampledFrom(names).Draw(t, "name"), Body: genBody(t)})
		}
	}
	// one source per name, valid text
	seen := map[string]bool{}
	keep := out[:0]
	for _, s := range out {
		if !seen[s.Filename] {
			seen[s.Filename] = true
			s.Body = strings.ToValidUTF8(s.Body, "?")
			keep = append(keep, s)
		}
	}
	return keep
}

type world struct {
	c       *vk.C
	dir     string
	log     string
	canary  []string
	compile int
	before  map[string]*seth.CompiledBundle // by sources
}

func (w *world) runs() (n int, last map[string]string) {
	f, err := os.Open(w.log)
	if err != nil {
		return 0, nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	var line []byte
	for sc.Scan() {
		n++
		line = append(line[:0], sc.Bytes()...)
	}
	var e struct{ In string }
	if json.Unmarshal(line, &e) != nil {
		return n, nil
	}
	var req struct {
		Sources map[string]struct{ Content string }
	}
	if json.Unmarshal([]byte(e.In), &req) != nil {
		return n, nil
	}
	last = map[string]string{}
	for k, v := range req.Sources {
		last[k] = v.Content
	}
	return n, last
}

func (w *world) cacheFiles() []string {
	var out []string
	filepath.Walk(os.Getenv("TMPDIR"), func(path string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() && strings.HasSuffix(path, ".bundle") {
			out = append(out, path)
		}
		return nil
	})
	return out
}

// check compiles and compares. down says that the compiler is made to fail.
func (w *world) check(how string, sources []seth.Source, down bool, run func() (*seth.CompiledBundle, error)) *seth.CompiledBundle {
	var b *seth.CompiledBundle
	var err error
	if msg := vk.Trap(func() { b, err = run() }); msg != "" {
		w.c.Fatalf("%s of %q: %s", how, sources, msg)
	}
	want, fail := expect(sources)
	if err != nil {
		if down {
			return nil
		}
		if fail == "" {
			w.c.Fatalf("%s of %q failed: %s", how, sources, err)
		}
		if fail != "*" && !strings.Contains(err.Error(), fail) && !anyFail(sources, err) {
			w.c.Fatalf("%s of %q failed with %q, which does not say %q", how, sources, err, fail)
		}
		return nil
	}
	if fail != "" {
		w.c.Fatalf("%s of %q succeeded; the compiler reported %q", how, sources, fail)
	}
	if !sameVal(sorted(b), sorted(want)) {
		w.c.Fatalf("%s of %q\n gave %+v,\n want %+v", how, sources, b, want)
	}
	// the same sources give the same bundle, whatever became of the cache
	set := append([]seth.Source(nil), sources...)
	sort.Slice(set, func(i, j int) bool { return set[i].Filename < set[j].Filename })
	key := fmt.Sprintf("%q", set)
	if w.before == nil {
		w.before = map[string]*seth.CompiledBundle{}
	}
	if old := w.before[key]; old != nil && !sameVal(b, old) {
		w.c.Fatalf("%s of %q\n gave %+v,\n earlier %+v", how, sources, b, old)
	}
	w.before[key] = b
	return b
}

// anyFail reports whether the error carries one of the compiler's messages, or
// is about code that cannot be decoded.
func anyFail(sources []seth.Source, err error) bool {
	for _, s := range sources {
		for _, it := range items(s.Body) {
			if it.Type != "" && it.Type != "Warning" && strings.Contains(err.Error(), it.Msg) {
				return true
			}
		}
	}
	return false
}

func TestC22(t *testing.T) {
	p := vk.Start(t, "C22", "a case is non-trivial when it compiles at least two different sets of sources with one cache",
		"the compiler is a stand-in that reports what the sources tell it to, with the JSON layout of solc --standard-json")
	solc := os.Getenv("VK_BIN_SOLC")
	if solc == "" {
		panic("HARNESS-ERROR no fake solc")
	}
	root := os.Getenv("VK_SCRATCH")
	os.Setenv("PATH", filepath.Dir(solc))
	p.Check("compilations", 500, 12000, func(c *vk.C) {
		dir, err := os.MkdirTemp(root, "c22_")
		if err != nil {
			panic("HARNESS-ERROR " + err.Error())
		}
		if strings.ContainsAny(dir, "-[*?") {
			panic("HARNESS-ERROR the scratch directory's name could mislead the code under test: " + dir)
		}
		defer os.RemoveAll(dir)
		w := &world{c: c, dir: dir, log: filepath.Join(dir, "log")}
		// the cache directory, and files beside it that are not the cache's
		rel := rapid.SampledFrom([]string{"tmp", "t-mp", "t-mp/x", "x/t-mp", "t[m]p", "t*-p"}).Draw(c.T, "tmpdir")
		tmp := filepath.Join(dir, rel)
		for _, n := range []string{tmp + "/notes.txt", tmp + "/tevm/notes.txt", tmp + "/tevm-notes", dir + "/t-notes.txt", dir + "/t.bundle", dir + "/x/t-z"} {
			if os.MkdirAll(filepath.Dir(n), 0777) != nil || os.WriteFile(n, []byte(n), 0666) != nil {
				panic("HARNESS-ERROR " + n)
			}
			w.canary = append(w.canary, n)
		}
		old := os.Getenv("TMPDIR")
		os.Setenv("TMPDIR", tmp)
		os.Setenv("FAKESOLC_LOG", w.log)
		defer os.Setenv("TMPDIR", old)
		defer os.Unsetenv("FAKESOLC_MODE")

		var cur []seth.Source
		sets := map[string]bool{}
		namesets := map[string]bool{}
		nameset := func(sources []seth.Source) string {
			var out []string
			for _, s := range sources {
				out = append(out, s.Filename)
			}
			sort.Strings(out)
			return fmt.Sprintf("%q", out)
		}
		parallel := false
		steps := rapid.IntRange(2, 10).Draw(c.T, "steps")
		var trace []string
		for i := 0; i < steps; i++ {
			sources := genSources(c.T, cur)
			cur = sources
			sets[fmt.Sprint(sources)], namesets[nameset(sources)] = true, true
			op := rapid.SampledFrom([]string{"compile", "compile", "compile", "compile", "twice", "twice", "string", "glob", "damage", "failing", "parallel", "between", "between"}).Draw(c.T, "op")
			trace = append(trace, fmt.Sprintf("%s %q", op, sources))
			given := append([]seth.Source(nil), sources...)
			compile := func() (*seth.CompiledBundle, error) { return seth.Compile(given) }
			switch op {
			case "compile":
				before, _ := w.runs()
				w.check(op, sources, false, compile)
				if n, req := w.runs(); n > before {
					if n != before+1 || len(req) != len(sources) {
						c.Fatalf("compiling %q ran the compiler %d times, with %q", sources, n-before, req)
					}
					for _, s := range sources {
						if req[s.Filename] != s.Body {
							c.Fatalf("compiling %q gave the compiler %q", sources, req)
						}
					}
				}
			case "twice":
				b1 := w.check(op, sources, false, compile)
				n1, _ := w.runs()
				// the caller may reorder its sources
				perm := append([]seth.Source(nil), sources...)
				if rapid.Bool().Draw(c.T, "reorder") {
					for i, j := 0, len(perm)-1; i < j; i, j = i+1, j-1 {
						perm[i], perm[j] = perm[j], perm[i]
					}
				}
				b2 := w.check("second compilation", sources, false, func() (*seth.CompiledBundle, error) { return seth.Compile(perm) })
				n2, _ := w.runs()
				if b1 != nil {
					if !sameVal(b1, b2) {
						c.Fatalf("compiling %q twice gave\n%+v, then\n%+v", sources, b1, b2)
					}
					if n2 != n1 {
						c.Fatalf("compiling %q again at once ran the compiler again", sources)
					}
				}
			case "between": // sources of other names keep their results
				b1 := w.check(op, sources, false, compile)
				other := genSources(c.T, sources)
				sets[fmt.Sprint(other)], namesets[nameset(other)] = true, true
				w.check("compilation in between", other, false, func() (*seth.CompiledBundle, error) { return seth.Compile(other) })
				n1, _ := w.runs()
				b2 := w.check("compilation again", sources, false, compile)
				n2, _ := w.runs()
				if nameset(other) != nameset(sources) {
					c.Class("others in between")
					if b1 != nil && (n1 != n2 || !sameVal(b1, b2)) {
						c.Fatalf("compiling %q again, after %q, ran the compiler %d times and gave\n%+v, first it was\n%+v", sources, other, n2-n1, b2, b1)
					}
				}
			case "string":
				namesets["<stdin>"] = true
				body := genBody(c.T)
				w.check(op, []seth.Source{{Filename: "<stdin>", Body: body}}, false, func() (*seth.CompiledBundle, error) { return seth.CompileString(body) })
			case "glob":
				gd := filepath.Join(dir, fmt.Sprintf("glob%d", i))
				os.MkdirAll(gd, 0777)
				var want []seth.Source
				for k, s := range sources {
					n := filepath.Join(gd, fmt.Sprintf("%d%s", k, filepath.Base(s.Filename)))
					if os.WriteFile(n, []byte(s.Body), 0666) != nil {
						panic("HARNESS-ERROR " + n)
					}
					if strings.HasSuffix(n, ".sol") {
						want = append(want, seth.Source{Filename: n, Body: s.Body})
					}
				}
				pat := filepath.Join(gd, "*.sol")
				namesets[nameset(want)] = true
				odd := ""
				if rapid.IntRange(0, 3).Draw(c.T, "a match that cannot be read") == 0 {
					odd = rapid.SampledFrom([]string{"a directory", "a dangling link"}).Draw(c.T, "odd")
					n := filepath.Join(gd, rapid.SampledFrom([]string{"0.sol", "9z.sol"}).Draw(c.T, "odd name"))
					err := os.Mkdir(n, 0777)
					if odd == "a dangling link" {
						os.Remove(n)
						err = os.Symlink(filepath.Join(gd, "nothing"), n)
					}
					if err != nil {
						panic("HARNESS-ERROR " + err.Error())
					}
				}
				if len(want) == 0 || odd != "" {
					if _, err := seth.CompileGlob(pat); err == nil {
						c.Fatalf("a glob of %d files and %q compiled", len(want), odd)
					}
				} else {
					w.check(op, want, false, func() (*seth.CompiledBundle, error) { return seth.CompileGlob(pat) })
				}
			case "damage":
				w.check(op, sources, false, compile)
				for n := rapid.IntRange(1, 5).Draw(c.T, "times"); n > 0; n-- {
					how := rapid.IntRange(0, 5).Draw(c.T, "damage")
					for _, f := range w.cacheFiles() {
						if f == filepath.Join(dir, "t.bundle") {
							continue
						}
						raw, err := os.ReadFile(f)
						if err != nil {
							continue
						}
						switch how {
						case 0:
							raw = raw[:rapid.IntRange(0, len(raw)).Draw(c.T, "kept bytes")]
						case 1:
							raw = []byte("garbage")
						case 2:
							raw = bytes.Repeat([]byte{0}, len(raw))
						default:
							// one byte is not what it was
							if len(raw) > 0 {
								i := rapid.IntRange(0, 1<<30).Draw(c.T, "changed byte") % len(raw)
								raw[i] ^= byte(rapid.IntRange(1, 255).Draw(c.T, "flipped bits"))
							}
						}
						os.WriteFile(f, raw, 0666)
					}
					w.check("compilation with a damaged cache", sources, false, compile)
				}
				w.check("compilation after that", sources, false, compile)
			case "failing":
				os.Setenv("FAKESOLC_MODE", rapid.SampledFrom([]string{"exit", "late exit", "garbage", "long garbage", "empty", "cut", "negative id", "bad code"}).Draw(c.T, "mode"))
				before, _ := w.runs()
				b := w.check(op, sources, true, compile)
				after, _ := w.runs()
				if b != nil && after != before {
					c.Fatalf("the compiler failed (%s), compiling %q succeeded", os.Getenv("FAKESOLC_MODE"), sources)
				}
				os.Unsetenv("FAKESOLC_MODE")
				w.check("compilation after a failure", sources, false, compile)
			case "parallel":
				parallel = true // two results of one set of names may remain
				other := genSources(c.T, sources)
				sets[fmt.Sprint(other)], namesets[nameset(other)] = true, true
				var wg sync.WaitGroup
				type res struct {
					b   *seth.CompiledBundle
					err error
					bad string
				}
				results := make([]res, 4)
				for k := range results {
					wg.Add(1)
					go func(k int) {
						defer wg.Done()
						s := append([]seth.Source(nil), sources...)
						if k%2 == 1 {
							s = append([]seth.Source(nil), other...)
						}
						results[k].bad = vk.Trap(func() { results[k].b, results[k].err = seth.Compile(s) })
					}(k)
				}
				wg.Wait()
				for k, r := range results {
					s := sources
					if k%2 == 1 {
						s = other
					}
					if r.bad != "" {
						c.Fatalf("compiling %q: %s", s, r.bad)
					}
					w.check(op, s, false, func() (*seth.CompiledBundle, error) { return r.b, r.err })
				}
			}
			if !sameVal(&given, &sources) {
				c.Fatalf("compiling changed the caller's sources from %q to %q", sources, given)
			}
			c.Class(op)
			if n := len(w.cacheFiles()); n > len(namesets) && !parallel {
				c.Fatalf("the cache holds %d results for %d sets of file names: %q", n, len(namesets), w.cacheFiles())
			}
			for _, n := range w.canary {
				if b, err := os.ReadFile(n); err != nil || string(b) != n {
					c.Fatalf("compiling %q, with the cache in %s, removed or changed %s", sources, tmp, n)
				}
			}
		}
		if len(sets) > 1 {
			c.NonTrivial(strings.Join(trace, "\n"))
			c.Sample("%s", strings.Join(trace, "; "))
		}
	})
}
