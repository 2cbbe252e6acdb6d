package main

// PVec is a persistent (copy-on-write) sparse vector. Nodes carry the token of
// the state that owns them; a state may modify its own nodes in place.

type Token struct{ _ byte }

const pvBits = 5
const pvFan = 1 << pvBits

type pnode struct {
	tok  *Token
	kids [pvFan]interface{} // *pnode or element
}

type PVec struct {
	root  *pnode
	shift uint // shift of the root level
}

func (v *PVec) get(i int) interface{} {
	n := v.root
	if n == nil || i>>(v.shift+pvBits) != 0 {
		return nil
	}
	for s := v.shift; s > 0; s -= pvBits {
		k := n.kids[(i>>s)&(pvFan-1)]
		if k == nil {
			return nil
		}
		n = k.(*pnode)
	}
	return n.kids[i&(pvFan-1)]
}

func (v *PVec) set(tok *Token, i int, x interface{}) {
	if v.root == nil {
		v.root = &pnode{tok: tok}
		v.shift = 0
	}
	for i>>(v.shift+pvBits) != 0 {
		r := &pnode{tok: tok}
		r.kids[0] = v.root
		v.root = r
		v.shift += pvBits
	}
	if v.root.tok != tok {
		c := *v.root
		c.tok = tok
		v.root = &c
	}
	n := v.root
	for s := v.shift; s > 0; s -= pvBits {
		j := (i >> s) & (pvFan - 1)
		var k *pnode
		if n.kids[j] == nil {
			k = &pnode{tok: tok}
			n.kids[j] = k
		} else {
			k = n.kids[j].(*pnode)
			if k.tok != tok {
				c := *k
				c.tok = tok
				k = &c
				n.kids[j] = k
			}
		}
		n = k
	}
	n.kids[i&(pvFan-1)] = x
}
