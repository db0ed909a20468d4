package zzverif

import (
	"encoding/json"
	"math"
	"time"

	"gopkg.in/yaml.v3"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/internal/zzverif/nd"
	"github.com/go-oidfed/lib/unixtime"
)

// yamlNode is a YAML document of one value, in its JSON notation.
func yamlNode(data []byte) *yaml.Node {
	if nd.Symbolic() {
		return &yaml.Node{Kind: yaml.ScalarNode, Value: string(data)}
	}
	var n yaml.Node
	if err := yaml.Unmarshal(data, &n); err != nil {
		panic(err)
	}
	return n.Content[0]
}

// H_P19_time: whole seconds survive exactly, in both directions.
func H_P19_time() {
	s := nd.Int("timestamp", -(1 << 53), 1<<53)
	var u unixtime.Unixtime
	nd.Assert(json.Unmarshal(enc(s), &u) == nil, "a timestamp parses")
	nd.Assert(u.Unix() == s && u.Nanosecond() == 0, "the timestamp is exactly the second written")
	var back struct {
		T float64
	}
	nd.Assume(s != -62135596800) // the zero time means: none
	nd.Assert(json.Unmarshal(enc(map[string]any{"T": u}), &back) == nil && back.T == float64(s), "the timestamp is written as the same second")
	nd.Cover("timestamp")
}

// H_P19_timefrac: any other number is a time within a microsecond, or rejected.
func H_P19_timefrac() {
	f := nd.Float("timestamp")
	nd.Assume(!math.IsNaN(f) && !math.IsInf(f, 0))
	var u unixtime.Unixtime
	if json.Unmarshal(enc(f), &u) != nil {
		nd.Assert(f > 1<<53 || f < -(1<<53), "timestamps in range are not rejected")
		nd.Cover("rejected")
		return
	}
	nd.Assert(f <= 1<<54 && f >= -(1<<54), "timestamps far out of range are rejected")
	sec := math.Trunc(f)
	ns := (u.Unix()-int64(sec))*1_000_000_000 + int64(u.Nanosecond())
	diff := ns - int64((f-sec)*1e9)
	nd.Assert(diff < 1000 && diff > -1000, "the time is the one written")
	nd.Cover("parsed")
}

// H_P19_timeout: a fractional time is written to within a microsecond.
func H_P19_timeout() {
	s := []int64{0, 1, -1, 946684800, 1700000001, 1<<32 - 1, -(1 << 31), 1 << 33}[nd.Choice("seconds", 8)]
	ns := nd.Int("nanoseconds", 0, 999_999_999)
	u := unixtime.Unixtime{Time: time.Unix(s, ns)}
	var f float64
	nd.Assert(json.Unmarshal(enc(u), &f) == nil, "a time is written as a number")
	diff := (f - float64(s)) - float64(ns)/1e9
	nd.Assert(diff < 1e-6 && diff > -1e-6, "the number is the time")
	nd.Cover("written")
}

// H_P19_duration: whole seconds survive exactly, in JSON and YAML.
func H_P19_duration() {
	s := nd.Int("seconds", -9223372035, 9223372035)
	var d unixtime.DurationInSeconds
	var err error
	y := nd.Flag("yaml")
	if y {
		err = d.UnmarshalYAML(yamlNode(enc(s)))
	} else {
		err = json.Unmarshal(enc(s), &d)
	}
	nd.Assert(err == nil, "a duration parses")
	nd.Assert(d.Duration == unix(s).Sub(unix(0)), "the duration is exactly the one written")
	nd.Assert(unixtime.NewDurationInSeconds(float64(s)) == d, "the constructor gives the same duration")
	nd.Cover("duration")
}

// H_P19_durationout: a duration of whole seconds is written exactly.
func H_P19_durationout() {
	s := nd.Int("seconds", -nd.Bound("seconds", 9223372035, 9223372035), nd.Pick(9223372035, 9223372035))
	d := unixtime.DurationInSeconds{Duration: unix(s).Sub(unix(0))}
	var f float64
	if nd.Flag("yaml") {
		v, err := d.MarshalYAML()
		g, ok := v.(float64)
		nd.Assert(err == nil && ok, "a number is written")
		f = g
	} else {
		nd.Assert(json.Unmarshal(enc(d), &f) == nil, "a number is written")
	}
	nd.Assert(f == float64(s), "the number is the duration")
	nd.Cover("written")
}

// H_P19_durationfrac: fractions survive to within a microsecond, and no value
// wraps around.
func H_P19_durationfrac() {
	f := nd.Float("seconds")
	nd.Assume(!math.IsNaN(f) && !math.IsInf(f, 0))
	var d unixtime.DurationInSeconds
	if nd.Flag("yaml") {
		nd.Assert(d.UnmarshalYAML(yamlNode(enc(f))) == nil, "a duration parses")
	} else {
		nd.Assert(json.Unmarshal(enc(f), &d) == nil, "a duration parses")
	}
	n := int64(d.Duration)
	switch {
	case f >= 9223372036:
		nd.Assert(n >= 9223372036_000000000, "a long duration is long")
		nd.Cover("saturated")
	case f <= -9223372036:
		nd.Assert(n <= -9223372036_000000000, "a long negative duration is long")
		nd.Cover("saturated below")
	default:
		sec := math.Trunc(f)
		want := (f - sec) * 1e9
		diff := float64(n-int64(sec)*1_000_000_000) - want
		nd.Assert(diff <= 1000 && diff >= -1000, "the duration is the one written")
		nd.Cover("parsed")
	}
}

// H_P19_verify: a document is valid from the moment it is issued until the
// moment it expires.
func H_P19_verify() {
	now := nd.Now()
	var iat, exp *unixtime.Unixtime
	ok := true
	if nd.Flag("issued") {
		s := nd.Int("iat", 1, 1<<40)
		iat = &unixtime.Unixtime{Time: unix(s)}
		ok = nd.And(ok, s <= now)
	}
	if nd.Flag("expires") {
		s := nd.Int("exp", 1, 1<<40)
		exp = &unixtime.Unixtime{Time: unix(s)}
		ok = nd.And(ok, s >= now)
	}
	nd.Assert(nd.Iff(unixtime.VerifyTime(iat, exp) == nil, ok), "valid exactly within its validity period")
	if ok {
		nd.Cover("valid")
	}
}

func words(l string, n int) []string {
	out := []string{}
	for i := 0; i < n; i++ {
		out = append(out, nd.Str(l))
	}
	return out
}

// slices checks one instance of the single-or-list type.
func checkSlice[T comparable](vals []T) {
	n := len(vals)
	check := func(data []byte, y bool) {
		v := oidfed.SliceOrSingleValue[T]{vals0[T](), vals0[T]()}
		var err error
		if y {
			err = v.UnmarshalYAML(yamlNode(data))
		} else {
			err = json.Unmarshal(data, &v)
		}
		nd.Assert(err == nil && len(v) == n, "both notations parse")
		for i := range vals {
			nd.Assert(v[i] == vals[i], "the values are the ones written")
		}
		out, err := v.MarshalYAML()
		nd.Assert(err == nil, "serializes")
		for _, b := range [][]byte{enc(v), enc(out)} {
			var l []T
			var s T
			if n == 1 {
				nd.Assert(json.Unmarshal(b, &s) == nil && s == vals[0], "a single value is written as such")
				continue
			}
			nd.Assert(json.Unmarshal(b, &l) == nil && len(l) == n, "a list is written as a list")
			for i := range vals {
				nd.Assert(l[i] == vals[i], "the values written are the values")
			}
		}
	}
	y := nd.Flag("yaml")
	if n == 1 && nd.Flag("single") {
		check(enc(vals[0]), y)
		nd.Cover("single")
		return
	}
	check(enc(vals), y)
	nd.Cover("list")
}

func vals0[T any]() (t T) { return }

// H_P19_slice: lists that may be written as single values.
func H_P19_slice() {
	n := nd.Choice("length", nd.Bound("list length+1", 4, 7))
	if nd.Flag("numbers") {
		var v []int64
		for i := 0; i < n; i++ {
			v = append(v, nd.Int("value", -(1<<53), 1<<53))
		}
		if v == nil {
			v = []int64{}
		}
		checkSlice(v)
		return
	}
	checkSlice(words("value", n))
}

// H_P19_nil: no value at all stays no value; other types are rejected.
func H_P19_nil() {
	var v oidfed.SliceOrSingleValue[string]
	switch nd.Choice("value", 4) {
	case 0:
		b := enc(v)
		w := oidfed.SliceOrSingleValue[string]{"x"}
		nd.Assert(json.Unmarshal(b, &w) == nil && len(w) == 0, "no value stays no value")
	case 1:
		nd.Assert(json.Unmarshal(enc(nd.Int("number", 0, 1<<40)), &v) != nil, "a number is no string")
	case 2:
		nd.Assert(json.Unmarshal(enc(arr{nd.Str("word"), nd.Int("number", 0, 1<<40)}), &v) != nil, "a number in a list is no string")
	case 3:
		nd.Assert(json.Unmarshal(enc(obj{nd.Str("k"): "v"}), &v) != nil, "an object is no string")
	}
	nd.Cover("nil")
}
