//go:build go1.21

package model_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/vh"
)

// layer is the oracle: a chain of maps.
type layer struct {
	pairs  map[string]model.EnvVal
	parent *layer
	ty     model.EnvLayerType
}

func (l *layer) get(k string) (model.EnvVal, bool) {
	for ; l != nil; l = l.parent {
		if v, ok := l.pairs[k]; ok {
			return v, true
		}
	}
	return model.EnvVal{}, false
}

func (l *layer) clone() *layer {
	if l == nil {
		return nil
	}
	r := &layer{map[string]model.EnvVal{}, l.parent.clone(), l.ty}
	for k, v := range l.pairs {
		r.pairs[k] = v
	}
	return r
}

func (l *layer) flat(incl bool, ps []string, noArgs bool) map[string]string {
	r := map[string]string{}
	for ; l != nil; l = l.parent {
		if l.ty == model.EnvLayerDefault && !incl {
			break
		}
		for k, v := range l.pairs {
			if _, has := r[k]; has || noArgs && v.IsArg {
				continue
			}
			skip := false
			for _, p := range ps {
				skip = skip || p != "" && strings.HasPrefix(k, p)
			}
			if !skip {
				r[k] = v.Raw
			}
		}
	}
	return r
}

var envTypes = []model.EnvLayerType{model.EnvLayerDefault, model.EnvLayerPersisted, model.EnvLayerSession, model.EnvLayerCmd, model.EnvLayerSubFlow, model.EnvLayerTmp}
var envKeys = []string{"a", "b", "sys.x", "session", "sysx", "p.q"}
var envVals = []string{"", "1", "2", "x y"}

type world struct {
	envs   []*model.Env
	models []*layer
}

func (w *world) add(e *model.Env, m *layer) {
	if len(w.envs) < 9 {
		w.envs = append(w.envs, e)
		w.models = append(w.models, m)
	}
}

func (w *world) diff() string {
	for i, e := range w.envs {
		m := w.models[i]
		for _, k := range envKeys {
			mv, mok := m.get(k)
			v, ok := e.GetEx(k)
			if ok != mok || v != mv {
				return fmt.Sprintf("env %d: lookup of %q gives %v,%v instead of %v,%v", i, k, v, ok, mv, mok)
			}
			if e.Has(k) != mok {
				return fmt.Sprintf("env %d: Has(%q) is %v instead of %v", i, k, e.Has(k), mok)
			}
			if e.Get(k) != mv || e.GetRaw(k) != mv.Raw {
				return fmt.Sprintf("env %d: Get(%q) gives %v instead of %v", i, k, e.Get(k), mv)
			}
		}
		for _, incl := range []bool{true, false} {
			for _, noArgs := range []bool{true, false} {
				for _, ps := range [][]string{nil, {"sys.", ""}, {"p", "a"}} {
					got := e.Flatten(incl, ps, noArgs)
					want := m.flat(incl, ps, noArgs)
					if fmt.Sprint(got) != fmt.Sprint(want) {
						return fmt.Sprintf("env %d: Flatten(%v,%q,%v) gives %v instead of %v", i, incl, ps, noArgs, got, want)
					}
				}
			}
		}
		if got, want := e.FlattenAll(), m.flat(true, nil, false); fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Sprintf("env %d: FlattenAll gives %v instead of %v", i, got, want)
		}
		if e.LayerType() != m.ty {
			return fmt.Sprintf("env %d: layer type %v instead of %v", i, e.LayerType(), m.ty)
		}
		for _, ty := range envTypes {
			var l *layer
			for l = m; l != nil && l.ty != ty; l = l.parent {
			}
			var g *model.Env
			p, _ := vh.Panics(func() { g = e.GetLayer(ty) })
			if p != (l == nil) {
				return fmt.Sprintf("env %d: GetLayer(%v) panics: %v", i, ty, p)
			}
			if !p {
				for j, m2 := range w.models {
					if m2 == l && w.envs[j] != g {
						return fmt.Sprintf("env %d: GetLayer(%v) is not the layer env %d", i, ty, j)
					}
				}
			}
		}
	}
	return ""
}

// step performs one random operation on both sides.
func (w *world) step(c *vh.C) string {
	r := c.R
	i := r.Intn(len(w.envs))
	e, m := w.envs[i], w.models[i]
	k, v := vh.Pick(r, envKeys...), vh.Pick(r, envVals...)
	ty := vh.Pick(r, envTypes...)
	set := func(m *layer, k, v string, a, s bool) model.EnvVal {
		old, ok := m.get(k)
		if !ok || old.Raw != v {
			m.pairs[k] = model.EnvVal{v, a, s}
		}
		return old
	}
	switch r.Intn(15) {
	case 0:
		w.add(e.NewLayer(ty), &layer{map[string]model.EnvVal{}, m, ty})
		return fmt.Sprintf("env%d=env%d.NewLayer(%v)", len(w.envs)-1, i, ty)
	case 1, 2:
		want := set(m, k, v, false, false)
		if got := e.Set(k, v); got != want {
			return fmt.Sprintf("!env%d.Set(%q,%q) returns %v instead of %v", i, k, v, got, want)
		}
		return fmt.Sprintf("env%d.Set(%q,%q)", i, k, v)
	case 3:
		a, s := r.Intn(2) == 0, r.Intn(2) == 0
		want := set(m, k, v, a, s)
		if got := e.SetEx(k, v, a, s); got != want {
			return fmt.Sprintf("!env%d.SetEx(%q,%q) returns %v instead of %v", i, k, v, got, want)
		}
		return fmt.Sprintf("env%d.SetEx(%q,%q,%v,%v)", i, k, v, a, s)
	case 4:
		if _, ok := m.get(k); !ok {
			m.pairs[k] = model.EnvVal{v, false, false}
		}
		e.SetIfEmpty(k, v)
		return fmt.Sprintf("env%d.SetIfEmpty(%q,%q)", i, k, v)
	case 5:
		for l := m; l != nil; l = l.parent {
			delete(l.pairs, k)
		}
		e.Delete(k)
		return fmt.Sprintf("env%d.Delete(%q)", i, k)
	case 6:
		for l := m; l != nil && l.ty != ty; l = l.parent {
			delete(l.pairs, k)
		}
		e.DeleteEx(k, ty)
		return fmt.Sprintf("env%d.DeleteEx(%q,%v)", i, k, ty)
	case 7:
		delete(m.pairs, k)
		e.DeleteInSelfLayer(k)
		return fmt.Sprintf("env%d.DeleteInSelfLayer(%q)", i, k)
	case 8:
		w.add(e.Clone(), m.clone())
		return fmt.Sprintf("env%d=env%d.Clone()", len(w.envs)-1, i)
	case 9:
		rec := r.Intn(2) == 0
		for l := m; l != nil; l = l.parent {
			for k := range l.pairs {
				if !strings.HasPrefix(k, "sys.") && k != "session" {
					delete(l.pairs, k)
				}
			}
			if !rec {
				break
			}
		}
		e.Clear(rec)
		return fmt.Sprintf("env%d.Clear(%v)", i, rec)
	case 10:
		j := r.Intn(len(w.envs))
		for k, v := range w.models[j].pairs {
			m.pairs[k] = model.EnvVal{v.Raw, false, false}
		}
		e.Merge(w.envs[j])
		return fmt.Sprintf("env%d.Merge(env%d)", i, j)
	case 11:
		if m.parent != nil {
			for k, v := range m.pairs {
				if old, ok := m.parent.get(k); ok && old.Raw == v.Raw {
					delete(m.pairs, k)
				}
			}
		}
		e.Deduplicate()
		return fmt.Sprintf("env%d.Deduplicate()", i)
	case 12:
		j := r.Intn(len(w.envs))
		if j != i {
			for k, v := range m.pairs {
				set(w.models[j], k, v.Raw, false, false)
			}
			e.WriteCurrLayerTo(w.envs[j])
		}
		return fmt.Sprintf("env%d.WriteCurrLayerTo(env%d)", i, j)
	case 13:
		m.pairs = map[string]model.EnvVal{}
		e.CleanCurrLayer()
		return fmt.Sprintf("env%d.CleanCurrLayer()", i)
	}
	l := m
	for ; l != nil && l.ty != ty; l = l.parent {
	}
	g := e.GetOrNewLayer(ty)
	if l == nil {
		w.add(g, &layer{map[string]model.EnvVal{}, m, ty})
	}
	return fmt.Sprintf("env%d.GetOrNewLayer(%v)", i, ty)
}

func TestVHEnv(t *testing.T) {
	c := vh.New(t, "random histories of up to 14 env operations on up to 9 layers, all lookups and flattened views compared with a chain of maps after every step; a case is a history")
	defer c.Done()
	for c.More() {
		w := &world{[]*model.Env{model.NewEnvEx(model.EnvLayerDefault)}, []*layer{{map[string]model.EnvVal{}, nil, model.EnvLayerDefault}}}
		n := 1 + c.R.Intn(14)
		var hist []string
		var h strings.Builder
		bad := ""
		p, pv := vh.Panics(func() {
			for k := 0; k < n && bad == ""; k++ {
				s := w.step(c)
				hist = append(hist, s)
				if strings.HasPrefix(s, "!") {
					bad = s
				} else {
					bad = w.diff()
				}
			}
		})
		if p {
			bad = fmt.Sprint("panic: ", pv)
		}
		h.WriteString(strings.Join(hist, "; "))
		if !c.Try("env history", h.String(), func() string { return bad }) {
			return
		}
	}
}
