package kit

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"unicode/utf8"
)

// F is a float64 that survives JSON whatever its value, bit for bit.
type F float64

func (f F) MarshalJSON() ([]byte, error) {
	v := float64(f)
	if math.IsNaN(v) {
		return []byte(fmt.Sprintf(`"nan:%016x"`, math.Float64bits(v))), nil
	}
	if math.IsInf(v, 0) || (v == 0 && math.Signbit(v)) {
		return json.Marshal(strconv.FormatFloat(v, 'g', -1, 64))
	}
	return []byte(strconv.FormatFloat(v, 'g', -1, 64)), nil
}

func (f *F) UnmarshalJSON(b []byte) error {
	var s string
	if json.Unmarshal(b, &s) != nil {
		s = string(b)
	}
	if len(s) == 20 && s[:4] == "nan:" {
		n, err := strconv.ParseUint(s[4:], 16, 64)
		*f = F(math.Float64frombits(n))
		return err
	}
	v, err := strconv.ParseFloat(s, 64)
	*f = F(v)
	return err
}

// S is a string that survives JSON even when it is not valid UTF-8.
type S string

func (s S) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(s)) {
		return json.Marshal(string(s))
	}
	return json.Marshal(struct {
		Q string `json:"q"`
	}{strconv.QuoteToASCII(string(s))})
}

func (s *S) UnmarshalJSON(b []byte) error {
	var p string
	if json.Unmarshal(b, &p) == nil {
		*s = S(p)
		return nil
	}
	var q struct {
		Q string `json:"q"`
	}
	if err := json.Unmarshal(b, &q); err != nil {
		return err
	}
	u, err := strconv.Unquote(q.Q)
	*s = S(u)
	return err
}

// SameFloat is equality of values where all NaNs count as equal and zeros do not differ.
func SameFloat(a, b float64) bool {
	return a == b || (math.IsNaN(a) && math.IsNaN(b))
}

// CloseFloat is SameFloat up to rounding.
func CloseFloat(a, b float64) bool {
	if SameFloat(a, b) {
		return true
	}
	d := math.Abs(a - b)
	return d <= 1e-9*math.Max(math.Abs(a), math.Abs(b)) || d < 1e-12
}
