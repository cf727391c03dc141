// Package ext holds types that another package refers to.
//
// +kubebuilder:object:generate=true
//
//gosym:generate object
package ext

// Gen has only generated methods.
type Gen struct {
	P *int
	L []int
}

var Used int

// Manual has its own methods.
type Manual struct{ P *int }

func (m *Manual) DeepCopyInto(o *Manual) {
	Used++
	o.P = nil
	if m.P != nil {
		x := *m.P
		o.P = &x
	}
}

func (m *Manual) DeepCopy() *Manual {
	if m == nil { // as a map's values are copied without looking
		return nil
	}
	o := new(Manual)
	m.DeepCopyInto(o)
	return o
}
