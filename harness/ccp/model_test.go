package ccp

import (
	"fmt"
	"math/big"
	"regexp"
	"strings"

	"github.com/philhofer/seth/cc"
	"pgregory.net/rapid"

	"verif/harness/gen"
)

// cur is what the check knows of a currency by itself.
type cur struct {
	c      cc.Currency
	digits int
	token  string // lower-case contract address, if a token
}

// wellKnown is a copy of the published precisions and contracts, so that a
// changed one shows.
var wellKnown = []cur{
	{"EUR", 8, ""},
	{"GBP", 8, ""},
	{"USD", 8, ""},
	{"BTC", 8, ""},
	{"ETH", 18, ""},
	{"ZEC", 9, ""},
	{"AION", 8, "0x4ceda7906a5ed2179785cd3a40a69ee8bc99c466"},
	{"AIR", 8, "0x27dce1ec4d3f72c3e457cc50354f1f975ddef488"},
	{"ANT", 18, "0x960b236a07cf122663c4303350609a66a7b288c0"},
	{"BAT", 18, "0x0d8775f648430679a709e98d2b0cb6250d2887ef"},
	{"BNT", 18, "0x1f573d6fb3f13d689ff844b4ce37794d79a7ff1c"},
	{"DGD", 9, "0xe0b7927c4af23765cb51314a0e0521a9645f0e2a"},
	{"DICE", 16, "0x2e071d2966aa7d8decb1005885ba1977d6038a65"},
	{"EDG", 0, "0x08711d3b02c8758f2fb3ab4e80228418a7f8e39c"},
	{"EOS", 18, "0x86fa049857e0209aa7d9e616f7eb3b3b78ecfdb0"},
	{"FUCK", 4, "0xc63e7b1dece63a77ed7e4aeef5efb3b05c81438d"},
	{"FUN", 8, "0xbbb1bd2d741f05e144e6c4517676a15554fd4b8d"},
	{"GNO", 18, "0x6810e776880c02933d47db1b9fc05908e5386b96"},
	{"GNT", 18, "0xa74476443119a942de498590fe1f2454d7d4ac0d"},
	{"GOOD", 6, "0xae616e72d3d89e847f74e8ace41ca68bbf56af79"},
	{"GUP", 3, "0xf7b098298f7c69fc14610bf71d5e02c60792894c"},
	{"HODL", 8, "0xb4b7d0c65b3618bc8706ab7b3719519ead624067"},
	{"ICN", 18, "0x888666ca69e0f178ded6d75b5726cee99a87d698"},
	{"JTT1", 8, "0xb1e7688a1cc678a035342b250d348f2c131bd8fb"},
	{"JTT2", 8, "0x4b59841ac0fbe6eaa3ad2978dad8d0e1c76a9237"},
	{"MCAP", 8, "0x93e682107d1e9defb0b5ee701c71707a4b2e46bc"},
	{"MKR", 18, "0xc66ea802717bfb9833400264dd12c2bceaa34a6d"},
	{"MLN", 18, "0xbeb9ef514a379b997e0798fdcc901ee474b6d9a1"},
	{"OMG", 18, "0xd26114cd6ee289accf82350c8d8487fedb8a0c07"},
	{"1ST", 18, "0xaf30d2a7e90d7dc361c8c4585e9bb7d2f6f15bc7"},
	{"PLBT", 6, "0x0affa06e7fbe5bc9a764c979aa66e8256a631f02"},
	{"PLU", 18, "0xd8912c10681d8b21fd3742244f44658dba12264e"},
	{"QTUM", 18, "0x9a642d6b3368ddc662ca244badf32cda716005bc"},
	{"REP", 18, "0x48c80f1f4d53d5951e5d5438b54cba84f29f32a5"},
	{"RLC", 9, "0x607f4c5bb672230e8672085532f7e901544a7375"},
	{"SCAM", 18, "0x49488350b4b2ed2fd164dd0d50b00e7e3f531651"},
	{"SNGLS", 0, "0xaec2e87e0a235266d9c5adc9deb4b2e29b54d009"},
	{"SNT", 18, "0x744d70fdbe2ba4cf95131626614a1763df805b9e"},
	{"SWT", 18, "0xb9e7f8568e08d5659f5d29c4997173d84cdf2607"},
	{"TKN", 8, "0xaaaf91d9b90df800df4f55c205fd6989c977e73a"},
	{"UET", 18, "0x27f706edde3ad952ef647dd67e24e38cd0803dd6"},
	{"🦄", 0, "0x89205a3a3b2a69de6dbf7f01ed13b2108b2c43e7"},
	{"VEROS", 5, "0xedbaf3c5100302dcdda53269322f3730b1f0416d"},
	{"VSL", 18, "0x5c543e7ae0a1104f78406c340e9c64fd9fce5170"},
	{"WINGS", 18, "0x667088b212ce3d06a1b553a7221e1fd19000d9af"},
	{"XAUR", 8, "0x4df812f6064def1e5e029f1ca858777cc98d2d81"},
	{"ZRX", 18, "0xe41d2489571d322189246dafa5ebde1f4699f498"},
}

var currencies []cur

func init() {
	currencies = append(currencies, wellKnown...)
	for d := 0; d <= 40; d++ {
		n := fmt.Sprintf("V%d", d)
		currencies = append(currencies, cur{cc.NewCurrency(n, d), d, ""})
		// names that look like parts of numbers
		if d%5 == 1 {
			currencies = append(currencies, cur{cc.NewCurrency(fmt.Sprintf("é%d.-", d), d), d, ""})
		}
	}
}

func drawCur(t *rapid.T, label string) cur {
	return currencies[rapid.IntRange(0, len(currencies)-1).Draw(t, label)]
}

// drawRaw draws an amount in the smallest unit, of either sign; digits is
// where the decimal point will stand.
func drawRaw(t *rapid.T, digits int, label string) *big.Int {
	var x *big.Int
	switch rapid.IntRange(0, 3).Draw(t, label+"kind") {
	case 0: // around a power of ten
		e := rapid.IntRange(0, digits+3).Draw(t, label+"exp")
		x = new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(e)), nil)
		x.Mul(x, big.NewInt(int64(rapid.IntRange(0, 11).Draw(t, label+"mul"))))
		x.Add(x, big.NewInt(int64(rapid.IntRange(-1, 1).Draw(t, label+"delta"))))
	case 1:
		x = gen.Big(300).Draw(t, label)
	default:
		x = gen.Big(90).Draw(t, label)
	}
	x = new(big.Int).Set(x)
	if rapid.Bool().Draw(t, label+"neg") {
		x.Neg(x)
	}
	return x
}

func pow10(n int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil) }

// decimal is the text of raw/10^digits with all its digits.
func decimal(raw *big.Int, digits int) string {
	return new(big.Rat).SetFrac(raw, pow10(digits)).FloatString(digits)
}

var decRE = regexp.MustCompile(`^(-?)([0-9]*)(?:\.([0-9]*))?$`)

// readDecimal says what text means at the given precision.
func readDecimal(s string, digits int) (*big.Int, bool) {
	m := decRE.FindStringSubmatch(s)
	if m == nil || m[2] == "" && m[3] == "" || len(m[3]) > digits {
		return nil, false
	}
	x, ok := new(big.Int).SetString(m[2]+m[3]+strings.Repeat("0", digits-len(m[3])), 10)
	if !ok && m[2]+m[3]+strings.Repeat("0", digits-len(m[3])) != "" {
		panic("HARNESS-ERROR: readDecimal " + s)
	}
	if m[1] == "-" {
		x.Neg(x)
	}
	return x, true
}

// drawDecimal draws decimal text, which may have too many decimals.
func drawDecimal(t *rapid.T, digits int) string {
	digitsOf := func(n int, label string) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = rapid.SampledFrom([]byte("0000123456789995")).Draw(t, label)
		}
		return string(b)
	}
	ip := digitsOf(rapid.IntRange(0, 24).Draw(t, "ip"), "i")
	s := ip
	max := digits
	if rapid.IntRange(0, 4).Draw(t, "toolong") == 0 {
		max = digits + 3
	}
	if n := rapid.IntRange(-1, max).Draw(t, "fp"); n >= 0 {
		s += "." + digitsOf(n, "f")
	}
	if rapid.IntRange(0, 2).Draw(t, "sign") == 0 {
		s = "-" + s
	}
	return s
}

// damage makes s something else, usually not a decimal any more.
func damage(t *rapid.T, s string) string {
	junk := rapid.SampledFrom([]string{"-", "+", ".", "..", "e", "E5", "0x", "x", "_", ",", "--", "+-", "'", "١", "½", "\x00", "a", "f", "NaN", "Inf", "0b1", "1/2"})
	for n := rapid.IntRange(1, 2).Draw(t, "edits"); n > 0; n-- {
		i := rapid.IntRange(0, len(s)).Draw(t, "at")
		if rapid.IntRange(0, 3).Draw(t, "cut") == 0 && i < len(s) {
			s = s[:i] + s[i+1:]
		} else {
			s = s[:i] + junk.Draw(t, "junk") + s[i:]
		}
	}
	return s
}
