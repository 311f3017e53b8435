package simrt

import "reflect"

func realSelect(hasDefault bool, cases []Case) Sel {
	rc := make([]reflect.SelectCase, 0, len(cases)+1)
	for _, k := range cases {
		v := reflect.ValueOf(k.real)
		if k.send {
			sv := reflect.ValueOf(k.v)
			if !sv.IsValid() {
				sv = reflect.Zero(v.Type().Elem())
			}
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectSend, Chan: v, Send: sv})
		} else {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: v})
		}
	}
	if hasDefault {
		rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(rc)
	if i == len(cases) {
		return Sel{I: -1}
	}
	r := Sel{I: i, ok: ok}
	if v.IsValid() {
		r.v = v.Interface()
	}
	return r
}
