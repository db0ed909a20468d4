package zzverif

import (
	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/internal/zzverif/nd"
)

func chainOf(n int) oidfed.TrustChain {
	ids := []string{eL, eA, eB, eT}
	c := oidfed.TrustChain{stmt(eL, eL)}
	for i := 1; i < n-1; i++ {
		c = append(c, stmt(ids[i], ids[i-1]))
	}
	return append(c, stmt(eT, ids[n-2]))
}

func known(op string) bool { return elem(op, opNames) }

// H_P10_crit: statements of a chain declare arbitrary operators critical.
func H_P10_crit() {
	n := 2 + nd.Choice("length", nd.Bound("statements beyond two", 2, 3))
	c := chainOf(n)
	q := chainParams[nd.Choice("param", 2)]
	c[0].Metadata = metaOf(q, pv{true, []string{"a", "b"}})
	unknown := false
	left := int(nd.Bound("critical operators", 2, 3))
	for i := range c {
		k := nd.Choice("critical operators", 3)
		if k > left {
			nd.Stop()
		}
		left -= k
		for j := 0; j < k; j++ {
			name := nd.Str("crit")
			if nd.Flag("known operator") {
				name = opNames[nd.Choice("operator", int64(len(opNames)))]
			}
			unknown = unknown || !known(name)
			c[i].MetadataPolicyCrit = append(c[i].MetadataPolicyCrit, oidfed.PolicyOperatorName(name))
		}
	}
	if nd.Flag("policy") {
		c[1].MetadataPolicy = polsOf(q, pol{"subset_of": []string{"a"}})
	}
	m, err := c.Metadata()
	if unknown {
		nd.Cover("unknown critical operator")
		nd.Assert(err != nil, "a chain with an unknown critical operator has no metadata")
		return
	}
	nd.Cover("understood")
	nd.Assert(err == nil && m != nil, "understood critical operators do no harm")
}

// H_P10_ignored: unknown operators that are not critical have no effect.
func H_P10_ignored() {
	a := &atoms{nd.Bound("words in values and operands", 2, 4)}
	q := chainParams[nd.Choice("param", nd.Pick(2, 5))]
	list := q.name != "custom_list"
	x := a.valueOf("value", list, 1)
	p := a.entryOf("p", list, nd.Bound("operators per entry", 2, 2), 1)
	r := pol{}
	if nd.Flag("second policy") {
		r = a.entryOf("r", list, 1, 1)
	}
	if mixedNull([]pol{p, r}) {
		nd.Stop()
	}
	u := nd.Str("unknown operator")
	nd.Assume(!known(u))
	var operand any
	switch nd.Choice("operand", nd.Pick(2, 3)) {
	case 0:
		operand = "x"
	case 1:
		operand = []string{"x", "y"}
	case 2:
		operand = obj{"k": 1}
	}
	where := nd.Choice("unknown operator in", 3)
	run := func(unknown bool) (any, bool, bool) {
		c := chainOf(4)
		c[0].Metadata = metaOf(q, x)
		p, r := p.clone(), r.clone()
		if unknown {
			if where != 1 {
				p[u] = operand
			}
			if where != 0 {
				r[u] = operand
			}
		}
		c[2].MetadataPolicy = polsOf(q, p)
		c[1].MetadataPolicy = polsOf(q, r)
		m, err := c.Metadata()
		if err != nil {
			return nil, false, false
		}
		v, ok := get(m, q)
		return v, ok, true
	}
	want, wantSet, wantOK := run(false)
	got, gotSet, gotOK := run(true)
	nd.Assert(gotOK == wantOK, "an unknown operator does not decide about success")
	nd.Assert(gotSet == wantSet && (!gotSet || same(got, want)), "an unknown operator does not change the metadata")
	if wantOK {
		nd.Cover("metadata")
	} else {
		nd.Cover("error")
	}
}

func (p pol) clone() pol {
	out := pol{}
	for k, v := range p {
		out[k] = v
	}
	return out
}
