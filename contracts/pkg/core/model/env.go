//go:build go1.21

package model

import . "github.com/innerr/ticat/pkg/vstd"

// ---- env layers (C02, C03)

// envWF: no two different layers share a map (copies of one layer may), and the parent of a layer
// was made before it (so chains are finite).
//
//vc:spec
func envWF() bool {
	return All(func(e *Env) bool {
		Trig(e.parent)
		return Implies(Live(e), e.parent == nil || Live(e.parent) && Addr(e.parent) < Addr(e))
	}) && All(func(e *Env) bool {
		Trig(e.pairs)
		return Implies(Live(e), Live(e.pairs))
	}) && All(func(e, f *Env) bool {
		Trig(e.pairs, f.pairs)
		return Implies(Live(e) && Live(f) && Addr(e.pairs) == Addr(f.pairs), e.parent == f.parent && e.ty == f.ty)
	})
}

// envFrameAll: the same for all keys.
//
//vc:lemma twostate
func envFrameAll(e *Env) {
	Requires(envWF())
	Requires(Old(envWF()))
	Requires(e == nil || Old(Live(e)))
	Requires(All(func(x *Env) bool {
		Trig(x.pairs)
		return Implies(Old(Live(x)) && Addr(x) <= Addr(e), Addr(x.pairs) == Old(Addr(x.pairs)) && x.parent == Old(x.parent))
	}))
	Requires(All(func(x *Env, k string) bool {
		Trig(Has(x.pairs, k))
		return Implies(Old(Live(x)) && Addr(x) <= Addr(e), Has(x.pairs, k) == Old(Has(x.pairs, k)))
	}))
	Requires(All(func(x *Env, k string) bool {
		Trig(x.pairs[k])
		return Implies(Old(Live(x)) && Addr(x) <= Addr(e), x.pairs[k] == Old(x.pairs[k]))
	}))
	Ensures(ForallStr(func(k string) bool { Trig(envHas(e, k)); Trig(Old(envHas(e, k))); return envHas(e, k) == Old(envHas(e, k)) }))
	Ensures(ForallStr(func(k string) bool { Trig(envGet(e, k)); Trig(Old(envGet(e, k))); return envGet(e, k) == Old(envGet(e, k)) }))
	Decreases(Addr(e))
	if e != nil {
		envFrameAll(e.parent)
	}
}

// envFrameBut: the same for all keys but one.
//
//vc:lemma twostate
func envFrameBut(e *Env, name string) {
	Requires(envWF())
	Requires(Old(envWF()))
	Requires(e == nil || Old(Live(e)))
	Requires(All(func(x *Env) bool {
		Trig(x.pairs)
		return Implies(Old(Live(x)) && Addr(x) <= Addr(e), Addr(x.pairs) == Old(Addr(x.pairs)) && x.parent == Old(x.parent))
	}))
	Requires(All(func(x *Env, k string) bool {
		Trig(Has(x.pairs, k))
		return Implies(k != name && Old(Live(x)) && Addr(x) <= Addr(e), Has(x.pairs, k) == Old(Has(x.pairs, k)))
	}))
	Requires(All(func(x *Env, k string) bool {
		Trig(x.pairs[k])
		return Implies(k != name && Old(Live(x)) && Addr(x) <= Addr(e), x.pairs[k] == Old(x.pairs[k]))
	}))
	Ensures(ForallStr(func(k string) bool { Trig(envHas(e, k)); Trig(Old(envHas(e, k))); return Implies(k != name, envHas(e, k) == Old(envHas(e, k))) }))
	Ensures(ForallStr(func(k string) bool { Trig(envGet(e, k)); Trig(Old(envGet(e, k))); return Implies(k != name, envGet(e, k) == Old(envGet(e, k))) }))
	Decreases(Addr(e))
	if e != nil {
		envFrameBut(e.parent, name)
	}
}

// envAbsent: an absent key has the empty value.
//
//vc:lemma
func envAbsent(e *Env, k string) {
	Requires(envWF() && envOK(e))
	Ensures(Implies(!envHas(e, k), envGet(e, k) == EnvVal{}))
	Decreases(Addr(e))
	if e != nil {
		envAbsent(e.parent, k)
	}
}

// envInAddr: the layers of a chain are not younger than its start.
//
//vc:lemma
func envInAddr(e, x *Env) {
	Requires(envWF() && envOK(e))
	Ensures(Implies(envIn(e, x), Addr(x) <= Addr(e)))
	Decreases(Addr(e))
	if e != nil {
		envInAddr(e.parent, x)
	}
}

// envVal: the value of a layer.
//
//vc:spec
func envVal(e Env) bool {
	return Live(e.pairs) && envOK(e.parent) && All(func(f *Env) bool {
		Trig(f.pairs)
		return Implies(Live(f) && Addr(f.pairs) == Addr(e.pairs), f.parent == e.parent && f.ty == e.ty)
	})
}

//vc:spec
func envOK(e *Env) bool { return e == nil || Live(e) }

// envHas / envGet: the meaning of a lookup, innermost layer first.
//
//vc:spec
//vc:dec Addr(e)
func envHas(e *Env, k string) bool {
	if e == nil || e.parent != nil && !(0 < Addr(e.parent) && Addr(e.parent) < Addr(e)) {
		return e != nil && Has(e.pairs, k)
	}
	return Has(e.pairs, k) || envHas(e.parent, k)
}

//vc:spec
//vc:dec Addr(e)
func envGet(e *Env, k string) EnvVal {
	if e == nil {
		return EnvVal{}
	}
	if Has(e.pairs, k) || e.parent != nil && !(0 < Addr(e.parent) && Addr(e.parent) < Addr(e)) {
		return e.pairs[k]
	}
	return envGet(e.parent, k)
}

// the same for a layer given by value
//
//vc:spec
func envHasV(e Env, k string) bool { return Has(e.pairs, k) || envHas(e.parent, k) }

//vc:spec
func envGetV(e Env, k string) EnvVal {
	if Has(e.pairs, k) {
		return e.pairs[k]
	}
	return envGet(e.parent, k)
}

// envOwns: m is the map of a layer of the chain starting at e.
//
//vc:spec
//vc:dec Addr(e)
func envOwns(e *Env, m map[string]EnvVal) bool {
	if e == nil {
		return false
	}
	if Addr(e.pairs) == Addr(m) {
		return true
	}
	if e.parent != nil && !(0 < Addr(e.parent) && Addr(e.parent) < Addr(e)) {
		return false
	}
	return envOwns(e.parent, m)
}

// envIn: x is a layer of the chain starting at e.
//
//vc:spec
//vc:dec Addr(e)
func envIn(e, x *Env) bool {
	if e == nil {
		return false
	}
	if e == x {
		return true
	}
	if e.parent != nil && !(0 < Addr(e.parent) && Addr(e.parent) < Addr(e)) {
		return false
	}
	return envIn(e.parent, x)
}

// envAbove: m is the map of a layer of the chain starting at e, inside the first layer of type stop.
//
//vc:spec
//vc:dec Addr(e)
func envAbove(e *Env, m map[string]EnvVal, stop EnvLayerType) bool {
	if e == nil || e.ty == stop {
		return false
	}
	if Addr(e.pairs) == Addr(m) {
		return true
	}
	if e.parent != nil && !(0 < Addr(e.parent) && Addr(e.parent) < Addr(e)) {
		return false
	}
	return envAbove(e.parent, m, stop)
}

// envLayer: the innermost layer of the type.
//
//vc:spec
//vc:dec Addr(e)
func envLayer(e *Env, ty EnvLayerType) *Env {
	if e == nil || e.ty == ty {
		return e
	}
	if e.parent != nil && !(0 < Addr(e.parent) && Addr(e.parent) < Addr(e)) {
		return nil
	}
	return envLayer(e.parent, ty)
}

// envFrame: a chain whose layers did not change for key k still means the same for k.
//
//vc:lemma twostate
func envFrame(e *Env, k string) {
	Requires(envWF())
	Requires(Old(envWF()))
	Requires(e == nil || Old(Live(e)))
	Requires(All(func(x *Env) bool {
		Trig(x.pairs)
		return Implies(Old(Live(x)) && Addr(x) <= Addr(e), Addr(x.pairs) == Old(Addr(x.pairs)) && x.parent == Old(x.parent) &&
			Has(x.pairs, k) == Old(Has(x.pairs, k)) && x.pairs[k] == Old(x.pairs[k]))
	}))
	Ensures(envHas(e, k) == Old(envHas(e, k)))
	Ensures(envGet(e, k) == Old(envGet(e, k)))
	Decreases(Addr(e))
	if e != nil {
		envFrame(e.parent, k)
	}
}

// envAlone: no other layer has the map of r.
//
//vc:spec
func envAlone(r *Env) bool {
	return All(func(f *Env) bool { Trig(f.pairs); return Implies(Live(f) && Addr(f.pairs) == Addr(r.pairs), f == r) })
}

//vc:contract NewEnv
func _() (r *Env) {
	Requires(envWF())
	Ensures(envWF())
	Ensures(Fresh(r) && r.parent == nil && Fresh(r.pairs) && r.ty == EnvLayerDefault)
	Ensures(envAlone(r))
	Ensures(ForallStr(func(k string) bool { return !Has(r.pairs, k) }))
	return
}

//vc:contract NewEnvEx
func _(ty EnvLayerType) (r *Env) {
	Requires(envWF())
	Ensures(envWF())
	Ensures(Fresh(r) && r.parent == nil && Fresh(r.pairs) && r.ty == ty)
	Ensures(envAlone(r))
	Ensures(ForallStr(func(k string) bool { return !Has(r.pairs, k) }))
	return
}

//vc:contract Env.NewLayer
func _(self *Env, ty EnvLayerType) (r *Env) {
	Requires(envWF() && Live(self))
	Ensures(envWF())
	Ensures(Fresh(r) && r.parent == self && Fresh(r.pairs) && r.ty == ty)
	Ensures(envAlone(r))
	Ensures(ForallStr(func(k string) bool { return !Has(r.pairs, k) }))
	return
}

//vc:contract Env.getLayer
func _(self *Env, ty EnvLayerType) (r *Env) {
	NoAlloc()
	Requires(envWF() && Live(self))
	Ensures(r == envLayer(self, ty))
	Ensures(envOK(r) && Implies(r != nil, r.ty == ty))
	Decreases(Addr(self))
	return
}

//vc:contract Env.GetLayer
func _(self *Env, ty EnvLayerType) (r *Env) {
	NoAlloc()
	Requires(envWF() && Live(self))
	Panics(envLayer(self, ty) == nil)
	Ensures(r == envLayer(self, ty) && Live(r) && r.ty == ty)
	return
}

//vc:contract Env.GetOrNewLayer
func _(self *Env, ty EnvLayerType) (r *Env) {
	Requires(envWF() && Live(self))
	Ensures(envWF())
	Ensures(Implies(Old(envLayer(self, ty)) != nil, r == Old(envLayer(self, ty))))
	Ensures(Implies(Old(envLayer(self, ty)) == nil, Fresh(r) && r.parent == self))
	Ensures(r.ty == ty)
	return
}

//vc:contract Env.Has
func _(self Env, name string) (r bool) {
	NoAlloc()
	Requires(envWF() && envOK(self.parent))
	Ensures(r == envHasV(self, name), "present in some layer")
	Decreases(Addr(self.parent))
	return
}

//vc:contract Env.Get
func _(self Env, name string) (r EnvVal) {
	NoAlloc()
	Requires(envWF() && envOK(self.parent))
	Ensures(r == envGetV(self, name), "value of the innermost layer")
	Decreases(Addr(self.parent))
	return
}

//vc:contract Env.GetEx
func _(self Env, name string) (r EnvVal, ok bool) {
	NoAlloc()
	Requires(envWF() && envOK(self.parent))
	Ensures(ok == envHasV(self, name), "present in some layer")
	Ensures(r == envGetV(self, name), "value of the innermost layer")
	Decreases(Addr(self.parent))
	return
}

//vc:contract Env.GetRaw
func _(self Env, name string) (r string) {
	NoAlloc()
	Requires(envWF() && envOK(self.parent))
	Ensures(r == envGetV(self, name).Raw)
	return
}

//vc:contract Env.Parent
func _(self *Env) (r *Env) {
	NoAlloc()
	Requires(self != nil)
	Ensures(r == self.parent)
	return
}

//vc:contract Env.SetEx
func _(self *Env, name string, val string, isArg bool, isSysArg bool) (old EnvVal) {
	NoAlloc()
	Requires(envWF() && Live(self))
	Modifies(self.pairs)
	Ensures(envWF())
	Ensures(old == Old(envGet(self, name)))
	Ensures(envGet(self, name).Raw == val && envHas(self, name), "lookup gives the value set")
	Ensures(Implies(Old(envHas(self, name)) && Old(envGet(self, name)).Raw == val, MapSame(self.pairs)), "no write when the value is visible already")
	Ensures(Implies(!(Old(envHas(self, name)) && Old(envGet(self, name)).Raw == val), Has(self.pairs, name) && self.pairs[name] == EnvVal{val, isArg, isSysArg}))
	Ensures(ForallStr(func(k string) bool {
		Trig(Has(self.pairs, k))
		return Implies(k != name, Has(self.pairs, k) == Old(Has(self.pairs, k)))
	}), "other keys stay")
	Ensures(ForallStr(func(k string) bool {
		Trig(self.pairs[k])
		return Implies(k != name, self.pairs[k] == Old(self.pairs[k]))
	}), "other keys keep their values")
	Ensures(ForallStr(func(k string) bool { Trig(envHas(self, k)); return Implies(k != name, envHas(self, k) == Old(envHas(self, k))) }), "other keys stay visible as they were")
	Ensures(ForallStr(func(k string) bool { Trig(envGet(self, k)); return Implies(k != name, envGet(self, k) == Old(envGet(self, k))) }), "other keys keep their visible values")
	//vc:use exit: envFrame(self.parent, name)
	//vc:use exit: envFrameBut(self.parent, name)
	return
}

//vc:contract Env.Set
func _(self *Env, name string, val string) (old EnvVal) {
	NoAlloc()
	Requires(envWF() && Live(self))
	Modifies(self.pairs)
	Ensures(envWF())
	Ensures(old == Old(envGet(self, name)))
	Ensures(envGet(self, name).Raw == val && envHas(self, name), "lookup gives the value set")
	Ensures(Implies(Old(envHas(self, name)) && Old(envGet(self, name)).Raw == val, MapSame(self.pairs)), "no write when the value is visible already")
	Ensures(Implies(!(Old(envHas(self, name)) && Old(envGet(self, name)).Raw == val), Has(self.pairs, name) && self.pairs[name] == EnvVal{val, false, false}))
	Ensures(ForallStr(func(k string) bool {
		Trig(Has(self.pairs, k))
		return Implies(k != name, Has(self.pairs, k) == Old(Has(self.pairs, k)))
	}), "other keys stay")
	Ensures(ForallStr(func(k string) bool {
		Trig(self.pairs[k])
		return Implies(k != name, self.pairs[k] == Old(self.pairs[k]))
	}), "other keys keep their values")
	Ensures(ForallStr(func(k string) bool { Trig(envHas(self, k)); return Implies(k != name, envHas(self, k) == Old(envHas(self, k))) }), "other keys stay visible as they were")
	Ensures(ForallStr(func(k string) bool { Trig(envGet(self, k)); return Implies(k != name, envGet(self, k) == Old(envGet(self, k))) }), "other keys keep their visible values")
	return
}

//vc:contract Env.SetIfEmpty
func _(self *Env, name string, val string) (old EnvVal) {
	NoAlloc()
	Requires(envWF() && Live(self))
	Modifies(self.pairs)
	Ensures(envWF())
	Ensures(Implies(Old(envHas(self, name)), old == Old(envGet(self, name)) && MapSame(self.pairs)))
	Ensures(Implies(!Old(envHas(self, name)), self.pairs[name] == EnvVal{val, false, false} && Has(self.pairs, name)))
	Ensures(ForallStr(func(k string) bool {
		return Implies(k != name, Has(self.pairs, k) == Old(Has(self.pairs, k)) && self.pairs[k] == Old(self.pairs[k]))
	}), "other keys stay")
	return
}

//vc:contract Env.DeleteInSelfLayer
func _(self Env, name string) {
	NoAlloc()
	Requires(envWF())
	Modifies(self.pairs)
	Ensures(envWF())
	Ensures(!Has(self.pairs, name))
	Ensures(ForallStr(func(k string) bool {
		return Implies(k != name, Has(self.pairs, k) == Old(Has(self.pairs, k)) && self.pairs[k] == Old(self.pairs[k]))
	}), "other keys stay")
	return
}

//vc:contract Env.Delete
func _(self Env, name string) {
	NoAlloc()
	Requires(envWF() && envOK(self.parent))
	ModifiesMaps(self.pairs)
	Ensures(envWF())
	Ensures(!Has(self.pairs, name))
	Ensures(!envHas(self.parent, name), "the key is absent everywhere")
	Ensures(envGet(self.parent, name) == EnvVal{})
	Ensures(All(func(m map[string]EnvVal, k string) bool {
		Trig(Has(m, k))
		return Implies(k != name || Addr(m) != Addr(self.pairs) && !envOwns(self.parent, m), Has(m, k) == Old(Has(m, k)))
	}), "other keys and other envs stay")
	Ensures(All(func(m map[string]EnvVal, k string) bool {
		Trig(m[k])
		return Implies(k != name || Addr(m) != Addr(self.pairs) && !envOwns(self.parent, m), m[k] == Old(m[k]))
	}), "other keys and other envs keep their values")
	Ensures(All(func(m map[string]EnvVal) bool { Trig(Has(m, name)); return Implies(Has(m, name), Old(Has(m, name))) }), "nothing is added")
	Ensures(ForallStr(func(k string) bool { Trig(envHas(self.parent, k)); return Implies(k != name, envHas(self.parent, k) == Old(envHas(self.parent, k))) }), "other keys stay visible as they were")
	Ensures(ForallStr(func(k string) bool { Trig(envGet(self.parent, k)); return Implies(k != name, envGet(self.parent, k) == Old(envGet(self.parent, k))) }), "other keys keep their visible values")
	Decreases(Addr(self.parent))
	//vc:use exit: envFrameBut(self.parent, name)
	//vc:use exit: envAbsent(self.parent, name)
	return
}

//vc:contract Env.DeleteEx
func _(self Env, name string, stopLayer EnvLayerType) {
	NoAlloc()
	Requires(envWF() && envOK(self.parent))
	ModifiesMaps(self.pairs)
	Ensures(envWF())
	Ensures(All(func(m map[string]EnvVal, k string) bool {
		Trig(Has(m, k))
		return Has(m, k) == (Old(Has(m, k)) && !(k == name && self.ty != stopLayer && (Addr(m) == Addr(self.pairs) || Old(envAbove(self.parent, m, stopLayer)))))
	}), "exactly the layers inside the stop layer lose the key")
	Ensures(All(func(m map[string]EnvVal, k string) bool {
		Trig(m[k])
		return Implies(Has(m, k), m[k] == Old(m[k]))
	}), "values stay")
	Decreases(Addr(self.parent))
	return
}

//vc:contract Env.Clone
func _(self *Env) (env *Env) {
	Requires(envWF() && Live(self))
	Ensures(envWF())
	Ensures(Fresh(env) && Fresh(env.pairs) && env.ty == self.ty)
	Ensures(ForallStr(func(k string) bool { Trig(envHas(env, k)); return envHas(env, k) == envHas(self, k) }), "same keys")
	Ensures(ForallStr(func(k string) bool { Trig(envGet(env, k)); return envGet(env, k) == envGet(self, k) }), "same values")
	Ensures(All(func(x *Env) bool { Trig(envIn(env, x)); return Implies(envIn(env, x), Fresh(x) && Fresh(x.pairs)) }), "shares nothing")
	Ensures(All(func(x *Env) bool { Trig(x.pairs); return Implies(Live(x) && Fresh(x), Fresh(x.pairs)) }))
	Decreases(Addr(self))
	//vc:inv 0: ForallStr(func(k string) bool { Trig(Has(pairs, k)); return Has(pairs, k) == Seen(k) })
	//vc:inv 0: ForallStr(func(k string) bool { Trig(Seen(k)); return Implies(Seen(k), Has(self.pairs, k)) })
	//vc:inv 0: ForallStr(func(k string) bool { Trig(pairs[k]); return Implies(Seen(k), pairs[k] == self.pairs[k]) })
	return
}

//vc:contract Env.Clear
func _(self *Env, recursive bool) {
	Requires(envWF() && Live(self))
	ModifiesField(self.pairs)
	Ensures(envWF())
	Ensures(ForallStr(func(k string) bool { return Has(self.pairs, k) == (Old(Has(self.pairs, k)) && envKept(k)) }))
	Ensures(ForallStr(func(k string) bool { return Implies(Has(self.pairs, k), self.pairs[k] == Old(self.pairs[k])) }))
	Ensures(Implies(!recursive, All(func(x *Env) bool { Trig(x.pairs); return Implies(x != self, Addr(x.pairs) == Old(Addr(x.pairs))) })), "only this layer")
	Ensures(All(func(x *Env) bool { Trig(x.pairs); return Implies(x != self && !envIn(self.parent, x), Addr(x.pairs) == Old(Addr(x.pairs))) }), "only this chain")
	Decreases(Addr(self))
	Ensures(All(func(x *Env, k string) bool { Trig(Has(x.pairs, k)); return Implies(recursive && Old(Live(x)) && envIn(self, x), Has(x.pairs, k) == (Old(Has(x.pairs, k)) && envKept(k))) }), "every layer of the chain is cleared")
	//vc:use exit: envInAddr(self.parent, self)
	//vc:inv 0: ForallStr(func(k string) bool { Trig(Has(pairs, k)); return Has(pairs, k) == (Seen(k) && envKept(k)) })
	//vc:inv 0: ForallStr(func(k string) bool { Trig(Seen(k)); return Implies(Seen(k), Has(self.pairs, k)) })
	//vc:inv 0: ForallStr(func(k string) bool { Trig(pairs[k]); return Implies(Seen(k) && envKept(k), pairs[k] == self.pairs[k]) })
	return
}

//vc:spec
func envKept(k string) bool { return IsPrefix(k, "sys.") || k == "session" }

//vc:contract Env.CleanCurrLayer
func _(self *Env) {
	Requires(envWF() && Live(self))
	Modifies(&self.pairs)
	Ensures(envWF())
	Ensures(ForallStr(func(k string) bool { return !Has(self.pairs, k) }))
	return
}

//vc:contract Env.Merge
func _(self *Env, x *Env) {
	NoAlloc()
	Requires(envWF() && Live(self) && Live(x))
	Modifies(self.pairs)
	Ensures(envWF())
	Ensures(ForallStr(func(k string) bool { Trig(Has(self.pairs, k)); return Has(self.pairs, k) == (Old(Has(self.pairs, k)) || Old(Has(x.pairs, k))) }))
	Ensures(ForallStr(func(k string) bool { Trig(self.pairs[k]); return Implies(Old(Has(x.pairs, k)), self.pairs[k] == EnvVal{Old(x.pairs[k]).Raw, false, false}) }))
	Ensures(ForallStr(func(k string) bool { Trig(self.pairs[k]); return Implies(!Old(Has(x.pairs, k)), self.pairs[k] == Old(self.pairs[k])) }))
	//vc:inv 0: ForallStr(func(k string) bool { Trig(Seen(k)); return Implies(Seen(k), Old(Has(x.pairs, k))) })
	//vc:inv 0: ForallStr(func(k string) bool { Trig(Has(self.pairs, k)); return Has(self.pairs, k) == (Old(Has(self.pairs, k)) || Seen(k)) })
	//vc:inv 0: ForallStr(func(k string) bool { Trig(self.pairs[k]); return Implies(Seen(k), self.pairs[k] == EnvVal{Old(x.pairs[k]).Raw, false, false}) })
	//vc:inv 0: ForallStr(func(k string) bool { Trig(self.pairs[k]); return Implies(!Seen(k), self.pairs[k] == Old(self.pairs[k])) })
	return
}

//vc:contract Env.Deduplicate
func _(self *Env) {
	NoAlloc()
	Requires(envWF() && Live(self))
	Modifies(self.pairs)
	Ensures(envWF())
	Ensures(ForallStr(func(k string) bool { return envHas(self, k) == Old(envHas(self, k)) && envGet(self, k).Raw == Old(envGet(self, k)).Raw }), "no lookup changes")
	Ensures(ForallStr(func(k string) bool { return Implies(Has(self.pairs, k), Old(Has(self.pairs, k)) && self.pairs[k] == Old(self.pairs[k])) }))
	Ensures(Implies(self.parent != nil, ForallStr(func(k string) bool {
		Trig(Has(self.pairs, k))
		return Implies(Has(self.pairs, k), !(envHas(self.parent, k) && envGet(self.parent, k).Raw == self.pairs[k].Raw))
	})), "no repetition is left")
	//vc:inv 0: envWF()
	//vc:inv 0: ForallStr(func(k string) bool { Trig(Has(self.pairs, k)); return Implies(Has(self.pairs, k), Old(Has(self.pairs, k))) })
	//vc:inv 0: ForallStr(func(k string) bool { Trig(self.pairs[k]); return Implies(Has(self.pairs, k), self.pairs[k] == Old(self.pairs[k])) })
	//vc:inv 0: ForallStr(func(k string) bool { Trig(Old(Has(self.pairs, k))); return Implies(Old(Has(self.pairs, k)) && !Has(self.pairs, k), Old(envHas(self.parent, k)) && Old(envGet(self.parent, k)).Raw == Old(self.pairs[k]).Raw) })
	//vc:inv 0: ForallStr(func(k string) bool { Trig(Seen(k)); return Implies(Seen(k) && Has(self.pairs, k), !(Old(envHas(self.parent, k)) && Old(envGet(self.parent, k)).Raw == self.pairs[k].Raw)) })
	//vc:use 0: envFrameAll(self.parent)
	//vc:use exit: envFrameAll(self.parent)
	return
}

//vc:contract Env.WriteCurrLayerTo
func _(self Env, env *Env) {
	NoAlloc()
	Requires(envWF() && Live(env) && Live(self.pairs) && Addr(self.pairs) != Addr(env.pairs))
	Modifies(env.pairs)
	Ensures(envWF())
	Ensures(ForallStr(func(k string) bool { return Implies(Has(self.pairs, k), envHas(env, k) && envGet(env, k).Raw == self.pairs[k].Raw) }), "every pair is visible there")
	Ensures(ForallStr(func(k string) bool { Trig(Has(env.pairs, k)); return Implies(!Has(self.pairs, k), Has(env.pairs, k) == Old(Has(env.pairs, k))) }))
	Ensures(ForallStr(func(k string) bool { Trig(env.pairs[k]); return Implies(!Has(self.pairs, k), env.pairs[k] == Old(env.pairs[k])) }))
	//vc:inv 0: envWF()
	//vc:inv 0: ForallStr(func(k string) bool { Trig(Seen(k)); return Implies(Seen(k), Has(self.pairs, k)) })
	//vc:inv 0: ForallStr(func(k string) bool { Trig(Has(env.pairs, k)); return Implies(!Seen(k), Has(env.pairs, k) == Old(Has(env.pairs, k))) })
	//vc:inv 0: ForallStr(func(k string) bool { Trig(env.pairs[k]); return Implies(!Seen(k), env.pairs[k] == Old(env.pairs[k])) })
	//vc:inv 0: ForallStr(func(k string) bool { Trig(Seen(k)); return Implies(Seen(k), envHas(env, k) && envGet(env, k).Raw == self.pairs[k].Raw) })
	//vc:use 0: envFrameAll(env.parent)
	//vc:use 0 end: envFrameAll(env.parent)
	return
}

// ---- flattened view

//vc:spec
func flatKeep(pairs map[string]EnvVal, k string, ps []string, noArgs bool) bool {
	return Has(pairs, k) && !(noArgs && pairs[k].IsArg) && !flatFiltered(k, ps)
}

//vc:spec
func flatFiltered(k string, ps []string) bool {
	return Exists(0, len(ps), func(i int) bool { Trig(ps[i]); return len(ps[i]) != 0 && IsPrefix(k, ps[i]) })
}

//vc:spec
//vc:dec Addr(e)
func flatHas(e *Env, k string, incl bool, ps []string, noArgs bool) bool {
	if e == nil || e.ty == EnvLayerDefault && !incl {
		return false
	}
	if flatKeep(e.pairs, k, ps, noArgs) {
		return true
	}
	if e.parent != nil && !(0 < Addr(e.parent) && Addr(e.parent) < Addr(e)) {
		return false
	}
	return flatHas(e.parent, k, incl, ps, noArgs)
}

//vc:spec
//vc:dec Addr(e)
func flatVal(e *Env, k string, incl bool, ps []string, noArgs bool) string {
	if e == nil || e.ty == EnvLayerDefault && !incl {
		return ""
	}
	if flatKeep(e.pairs, k, ps, noArgs) {
		return e.pairs[k].Raw
	}
	if e.parent != nil && !(0 < Addr(e.parent) && Addr(e.parent) < Addr(e)) {
		return ""
	}
	return flatVal(e.parent, k, incl, ps, noArgs)
}

//vc:lemma
func flatAll(e *Env, k string) {
	Requires(envWF() && envOK(e))
	Ensures(flatHas(e, k, true, nil, false) == envHas(e, k))
	Ensures(flatVal(e, k, true, nil, false) == envGet(e, k).Raw)
	Decreases(Addr(e))
	if e != nil {
		flatAll(e.parent, k)
	}
}

//vc:lemma
func flatAllE(e *Env) {
	Requires(envWF() && envOK(e))
	Ensures(ForallStr(func(k string) bool { Trig(flatHas(e, k, true, nil, false)); return flatHas(e, k, true, nil, false) == envHas(e, k) }))
	Ensures(ForallStr(func(k string) bool { Trig(flatVal(e, k, true, nil, false)); return flatVal(e, k, true, nil, false) == envGet(e, k).Raw }))
	Decreases(Addr(e))
	if e != nil {
		flatAllE(e.parent)
	}
}

//vc:contract Env.flatten
func _(self *Env, includeDefault bool, filterPrefixs []string, res map[string]string, filterArgs bool) {
	NoAlloc()
	Requires(envWF() && Live(self) && Live(res))
	Modifies(res)
	Ensures(ForallStr(func(k string) bool {
		Trig(Has(res, k))
		return Has(res, k) == (Old(Has(res, k)) || flatHas(self, k, includeDefault, filterPrefixs, filterArgs))
	}), "exactly the kept keys are added")
	Ensures(ForallStr(func(k string) bool {
		Trig(res[k])
		return Implies(flatHas(self, k, includeDefault, filterPrefixs, filterArgs), res[k] == flatVal(self, k, includeDefault, filterPrefixs, filterArgs))
	}), "with the value of the innermost layer")
	Ensures(ForallStr(func(k string) bool {
		Trig(res[k])
		return Implies(!flatHas(self, k, includeDefault, filterPrefixs, filterArgs), res[k] == Old(res[k]))
	}), "other keys of the result stay")
	Decreases(Addr(self))
	//vc:inv 0: ForallStr(func(k string) bool { Trig(Has(res, k)); return Has(res, k) == (AtLoop(Has(res, k)) || Seen(k) && flatKeep(self.pairs, k, filterPrefixs, filterArgs)) })
	//vc:inv 0: ForallStr(func(k string) bool { Trig(res[k]); return res[k] == Ite(Seen(k) && flatKeep(self.pairs, k, filterPrefixs, filterArgs), self.pairs[k].Raw, AtLoop(res[k])) })
	//vc:inv 1: filtered == Exists(0, Iter(), func(i int) bool { Trig(filterPrefixs[i]); return len(filterPrefixs[i]) != 0 && IsPrefix(k, filterPrefixs[i]) })
	return
}

//vc:contract Env.Flatten
func _(self Env, includeDefault bool, filterPrefixs []string, filterArgs bool) (r map[string]string) {
	Requires(envWF() && envVal(self))
	Ensures(envWF())
	Ensures(Fresh(r))
	Ensures(ForallStr(func(k string) bool {
		Trig(Has(r, k))
		return Has(r, k) == flatHasV(self, k, includeDefault, filterPrefixs, filterArgs)
	}), "exactly the kept keys")
	Ensures(ForallStr(func(k string) bool {
		Trig(r[k])
		return Implies(Has(r, k), r[k] == flatValV(self, k, includeDefault, filterPrefixs, filterArgs))
	}), "with the value of the innermost layer")
	return
}

//vc:contract Env.FlattenAll
func _(self Env) (r map[string]string) {
	Requires(envWF() && envVal(self))
	//vc:use entry: flatAllE(self.parent)
	Ensures(envWF())
	Ensures(Fresh(r))
	Ensures(ForallStr(func(k string) bool { Trig(Has(r, k)); return Has(r, k) == envHasV(self, k) }), "every key of every layer")
	Ensures(ForallStr(func(k string) bool { Trig(r[k]); return Implies(Has(r, k), r[k] == envGetV(self, k).Raw) }), "with its looked-up value")
	return
}

//vc:spec
func flatHasV(e Env, k string, incl bool, ps []string, noArgs bool) bool {
	return !(e.ty == EnvLayerDefault && !incl) && (flatKeep(e.pairs, k, ps, noArgs) || flatHas(e.parent, k, incl, ps, noArgs))
}

//vc:spec
func flatValV(e Env, k string, incl bool, ps []string, noArgs bool) string {
	if flatKeep(e.pairs, k, ps, noArgs) {
		return e.pairs[k].Raw
	}
	return flatVal(e.parent, k, incl, ps, noArgs)
}

//vc:contract Env.NewLayers
func _(self *Env, ty ...EnvLayerType) (r *Env) {
	Requires(envWF() && Live(self))
	Ensures(envWF() && Live(r))
	Ensures(Implies(len(ty) == 0, r == self))
	Ensures(Implies(len(ty) > 0, r.ty == ty[len(ty)-1] && Fresh(r)))
	Ensures(ForallStr(func(k string) bool { Trig(envHas(r, k)); return envHas(r, k) == envHas(self, k) }), "new layers hide nothing")
	Ensures(ForallStr(func(k string) bool { Trig(envGet(r, k)); return envGet(r, k) == envGet(self, k) }), "new layers change no value")
	//vc:inv 0: envWF() && Live(env)
	//vc:inv 0: Implies(Iter() == 0, env == self) && Implies(Iter() > 0, env.ty == ty[Iter()-1] && Fresh(env))
	//vc:inv 0: ForallStr(func(k string) bool { Trig(envHas(env, k)); return envHas(env, k) == envHas(self, k) })
	//vc:inv 0: ForallStr(func(k string) bool { Trig(envGet(env, k)); return envGet(env, k) == envGet(self, k) })
	return
}

//vc:contract Env.GetOneOfLayers
func _(self *Env, tys ...EnvLayerType) (r *Env) {
	Requires(envWF() && Live(self))
	Panics(Forall(0, len(tys), func(i int) bool { Trig(tys[i]); return envLayer(self, tys[i]) == nil }))
	Ensures(Exists(0, len(tys), func(i int) bool {
		Trig(tys[i])
		return r == envLayer(self, tys[i]) && r != nil && Forall(0, i, func(j int) bool { Trig(tys[j]); return envLayer(self, tys[j]) == nil })
	}), "the first of the types that exists")
	//vc:inv 0: Forall(0, Iter(), func(j int) bool { Trig(tys[j]); return envLayer(self, tys[j]) == nil })
	//vc:inv 0: env == nil
	return
}
