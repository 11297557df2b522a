package vh

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"strings"
)

var nasty = []string{
	"", " ", "a", "b", "plain", "Func.func1", "a,b", "a=b", "a b", "a,k=v", "k=v", "func:x", "x",
	`"`, `\`, `\"`, "'", "`", "<", ">", "&", "<script>alert('x')</script>", "]]>", "<!--", "&amp;", "&#10;",
	"\n", "\r\n", "\t", "\x00", "\x01", "\x7f", "\x1b[0m", "line1\nline2", "];\n evil [label=\"x", "}",
	"%d", "%s%n", "%", "{{.}}", "${x}", "日本語", "é", "😀", "\u2028", "\ufeff", "\ufffd", "\xff", "a\xffb", "\xc3\x28",
	"/", "//", "../..", "a/b.c", "scope", "name", "error_name", "value", "total", "delta", "long-" + strings.Repeat("x", 300),
	"0", "-1", "NaN", "null", "true", "Ａ", "a.b", ".", "..", ",", "=", ",=", "=,", ", ", `a\`, `a\,b`,
}

// Nasty returns a string that might need care.
func Nasty(r *rand.Rand) string {
	switch r.Intn(6) {
	case 0:
		return nasty[r.Intn(len(nasty))] + nasty[r.Intn(len(nasty))]
	case 1:
		n := r.Intn(12)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.Intn(256))
		}
		return string(b)
	case 2:
		n := r.Intn(8)
		b := make([]rune, n)
		for i := range b {
			b[i] = rune(" ,=\\ab\"'\n<&;é"[r.Intn(12)])
		}
		return string(b)
	default:
		return nasty[r.Intn(len(nasty))]
	}
}

// NastyPool lists the fixed strings that Nasty picks from.
func NastyPool() []string { return nasty }

// Simple returns a short plain name.
func Simple(r *rand.Rand) string {
	return fmt.Sprintf("n%d", r.Intn(1000000))
}

// Int64 returns an interesting int64.
func Int64(r *rand.Rand) int64 {
	switch r.Intn(8) {
	case 0:
		return []int64{0, 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, 1 << 53, 1<<53 + 1, 1 << 62, -(1 << 62), math.MaxInt32, math.MinInt32, 1 << 32}[r.Intn(14)]
	case 1:
		return int64(r.Uint64())
	case 2:
		return int64(r.Intn(2000000)) - 1000000
	default:
		return int64(r.Intn(200)) - 100
	}
}

// Err is a comparable error with an identity.
type Err struct{ Text string }

func (e *Err) Error() string { return e.Text }

// ErrBox makes errors.New style values.
func NewErr(r *rand.Rand) error {
	if r.Intn(2) == 0 {
		return errors.New(Nasty(r))
	}
	return &Err{Text: Nasty(r)}
}

// Many returns how many of something there are when there are many: a few more
// than a hundred up to max.
func Many(r *rand.Rand, max int) int {
	if r.Intn(3) == 0 {
		return max - r.Intn(1+max/4)
	}
	n := 100
	for n < max && r.Intn(3) != 0 {
		n *= 2 + r.Intn(3)
	}
	n += r.Intn(100)
	if n > max {
		n = max
	}
	return n
}

// Long returns a long string of all kinds of pieces.
func Long(r *rand.Rand, max int) string {
	n := Many(r, max)
	var b strings.Builder
	for b.Len() < n {
		b.WriteString(Nasty(r))
		if r.Intn(3) == 0 {
			fmt.Fprint(&b, r.Intn(1000))
		}
	}
	return b.String()
}
