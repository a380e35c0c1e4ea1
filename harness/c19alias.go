package main

import (
	"fmt"
	"reflect"
	"sort"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
)

// ---- the parts of a result: changing or appending to one changes no other ----

type span struct {
	from, to uintptr
	what     string
}

// spans lists the memory of all slices of a payload, with what there is to append to, and of its directives.
func spans(p *crossplane.Payload) (out []span) {
	var walk func(v reflect.Value, what string)
	walk = func(v reflect.Value, what string) {
		switch v.Kind() {
		case reflect.Slice:
			if v.Cap() > 0 {
				from := v.Pointer()
				out = append(out, span{from, from + uintptr(v.Cap())*v.Type().Elem().Size(), what})
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), fmt.Sprintf("%s[%d]", what, i))
			}
		case reflect.Pointer:
			if d, ok := v.Interface().(*crossplane.Directive); ok && d != nil {
				out = append(out, span{v.Pointer(), v.Pointer() + v.Type().Elem().Size(), what})
				walk(v.Elem(), what)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if f := v.Type().Field(i); f.IsExported() && f.Type.Kind() != reflect.Interface {
					walk(v.Field(i), what+"."+f.Name)
				}
			}
		}
	}
	walk(reflect.ValueOf(*p), "payload")
	return out
}

func aliasOne(w *W, c multiCase) error {
	o := options(c.Opt)
	o.Open, o.Glob = c.Files.open, c.Files.globText
	p, err := crossplane.Parse("/d/main", &o)
	if err != nil {
		w.Outcome("error")
		return nil
	}
	all := spans(p)
	w.Steps(len(all))
	w.State(dumpPayload(p))
	w.Outcome("parts of " + p.Status)
	sort.Slice(all, func(i, j int) bool { return all[i].from < all[j].from })
	for i := 1; i < len(all); i++ {
		if all[i].from < all[i-1].to {
			return fmt.Errorf("%s and %s share memory: appending to one, or changing it, changes the other", all[i-1].what, all[i].what)
		}
	}
	return nil
}
