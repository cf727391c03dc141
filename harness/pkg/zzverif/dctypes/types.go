// Package dctypes holds types for which the deepcopy generator is run when the checks are built, see dch. Written by tools/gendctypes.py.
//
// +kubebuilder:object:generate=true
//
//gosym:generate object
package dctypes

import (
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"sigs.k8s.io/controller-tools/pkg/zzverif/dctypes/ext"
)

type Flat struct {
	A int
	B string
}
type Deep struct {
	A *int
	B []string
	C map[string]string
}
type NInt int
type NPtr *int
type NMap map[string][]int
type NSlice []*int
type NNMap NMap
type NDeep Deep
type Emb struct {
	Deep
	*Flat
	NMap
}
type Rec struct {
	Next *Rec
	Kids []Rec
	Map  map[string]Rec
	Ptrs []*Rec
}
type Alias = []*int
type NPDeep *Deep
type NPVal *MVal
type NPPtr *MPtr
type AStr = string
type ADeep = Deep
type AFlat = Flat
type APtr = *Deep

// Unexp has fields that only code of the package can set, with names that the generated code uses as well.
type Unexp struct {
	in, out, key, val *int
	x                 map[string]*int
}

func (u *Unexp) Fill(n int, p func(string) *int) {
	u.in, u.val = p("in"), p("val")
	if n > 0 {
		u.out, u.key = p("out"), p("key")
		u.x = map[string]*int{}
	}
	if n > 1 {
		u.x["k"] = p("x")
	}
}

func (u *Unexp) All() []*int { return []*int{u.in, u.out, u.key, u.val, u.x["k"]} }

func (u *Unexp) Map() map[string]*int { return u.x }

// types with hand-written methods; they note that they were used

var Used int

type MVal struct{ P *int }

func (m MVal) DeepCopy() MVal {
	Used++
	return MVal{clone(m.P)}
}

type MPtr struct{ P *int }

func (m *MPtr) DeepCopy() *MPtr {
	Used++
	if m == nil {
		return nil
	}
	return &MPtr{clone(m.P)}
}

type MInto struct{ P *int }

func (m *MInto) DeepCopyInto(o *MInto) {
	Used++
	o.P = clone(m.P)
}

type MMap map[string]*int

func (m MMap) DeepCopy() MMap {
	Used++
	if m == nil {
		return nil
	}
	o := MMap{}
	for k, v := range m {
		o[k] = clone(v)
	}
	return o
}

func clone(p *int) *int {
	if p == nil {
		return nil
	}
	x := *p
	return &x
}

// +kubebuilder:object:root=true
type Root struct {
	metav1.TypeMeta
	P *int
}

// +kubebuilder:object:root=true
type RootList struct {
	metav1.TypeMeta
	Items []Root
}

type Keys struct {
	A map[int]*int
	B map[NInt][]int
	C map[Flat]*Flat
	D map[bool]bool
	E map[string]map[int]NMap
	F map[AStr]int
	G map[AFlat]bool
}

type Many struct {
	Deep Deep
	Ptr  *Deep
	List []Deep
	Map  map[string]Deep
	Flat Flat
	N    NInt
	M    MVal
	Q    *MPtr
}

type MapPtrVal struct{ F map[string]*MVal }

var _ ext.Gen

type F1 struct{ F int }
type F2 struct{ F string }
type F3 struct{ F bool }
type F4 struct{ F Flat }
type T4 Flat
type F5 struct{ F Deep }
type T5 Deep
type F6 struct{ F NInt }
type F7 struct{ F NPtr }
type T7 NPtr // a pointer has no methods
type F8 struct{ F NMap }
type T8 NMap
type F9 struct{ F NSlice }
type T9 NSlice
type F10 struct{ F NNMap }
type T10 NNMap
type F11 struct{ F NDeep }
type T11 NDeep
type F12 struct{ F MVal }
type T12 MVal
type F13 struct{ F MPtr }
type T13 MPtr
type F14 struct{ F MInto }
type T14 MInto
type F15 struct{ F MMap }
type T15 MMap
type F16 struct{ F Emb }
type T16 Emb
type F17 struct{ F Rec }
type T17 Rec
type F18 struct{ F ext.Manual }
type F19 struct{ F ext.Gen }
type F20 struct{ F Alias }
type F21 struct{ F Unexp }
type F22 struct{ F NPDeep }
type T22 NPDeep // a pointer has no methods
type F23 struct{ F NPVal }
type T23 NPVal // a pointer has no methods
type F24 struct{ F NPPtr }
type T24 NPPtr // a pointer has no methods
type F25 struct{ F AStr }
type F26 struct{ F ADeep }
type F27 struct{ F AFlat }
type F28 struct{ F APtr }
type F29 struct{ F *int }
type T29 *int // a pointer has no methods
type F30 struct{ F *string }
type T30 *string // a pointer has no methods
type F31 struct{ F *bool }
type T31 *bool // a pointer has no methods
type F32 struct{ F *Flat }
type T32 *Flat // a pointer has no methods
type F33 struct{ F *Deep }
type T33 *Deep // a pointer has no methods
type F34 struct{ F *NInt }
type T34 *NInt // a pointer has no methods
type F35 struct{ F *NPtr }
type T35 *NPtr // a pointer has no methods
type F36 struct{ F *NMap }
type T36 *NMap // a pointer has no methods
type F37 struct{ F *NSlice }
type T37 *NSlice // a pointer has no methods
type F38 struct{ F *NNMap }
type T38 *NNMap // a pointer has no methods
type F39 struct{ F *NDeep }
type T39 *NDeep // a pointer has no methods
type F40 struct{ F *MVal }
type T40 *MVal // a pointer has no methods
type F41 struct{ F *MPtr }
type T41 *MPtr // a pointer has no methods
type F42 struct{ F *MInto }
type T42 *MInto // a pointer has no methods
type F43 struct{ F *MMap }
type T43 *MMap // a pointer has no methods
type F44 struct{ F *Emb }
type T44 *Emb // a pointer has no methods
type F45 struct{ F *Rec }
type T45 *Rec // a pointer has no methods
type F46 struct{ F *ext.Manual }
type T46 *ext.Manual // a pointer has no methods
type F47 struct{ F *ext.Gen }
type T47 *ext.Gen // a pointer has no methods
type F48 struct{ F *Alias }
type T48 *Alias // a pointer has no methods
type F49 struct{ F *Unexp }
type T49 *Unexp // a pointer has no methods
type F50 struct{ F *NPDeep }
type T50 *NPDeep // a pointer has no methods
type F51 struct{ F *NPVal }
type T51 *NPVal // a pointer has no methods
type F52 struct{ F *NPPtr }
type T52 *NPPtr // a pointer has no methods
type F53 struct{ F *AStr }
type T53 *AStr // a pointer has no methods
type F54 struct{ F *ADeep }
type T54 *ADeep // a pointer has no methods
type F55 struct{ F *AFlat }
type T55 *AFlat // a pointer has no methods
type F56 struct{ F *APtr }
type T56 *APtr // a pointer has no methods
type F57 struct{ F []int }
type T57 []int
type F58 struct{ F []string }
type T58 []string
type F59 struct{ F []bool }
type T59 []bool
type F60 struct{ F []Flat }
type T60 []Flat
type F61 struct{ F []Deep }
type T61 []Deep
type F62 struct{ F []NInt }
type T62 []NInt
type F63 struct{ F []NPtr }
type T63 []NPtr
type F64 struct{ F []NMap }
type T64 []NMap
type F65 struct{ F []NSlice }
type T65 []NSlice
type F66 struct{ F []NNMap }
type T66 []NNMap
type F67 struct{ F []NDeep }
type T67 []NDeep
type F68 struct{ F []MVal }
type T68 []MVal
type F69 struct{ F []MPtr }
type T69 []MPtr
type F70 struct{ F []MInto }
type T70 []MInto
type F71 struct{ F []MMap }
type T71 []MMap
type F72 struct{ F []Emb }
type T72 []Emb
type F73 struct{ F []Rec }
type T73 []Rec
type F74 struct{ F []ext.Manual }
type T74 []ext.Manual
type F75 struct{ F []ext.Gen }
type T75 []ext.Gen
type F76 struct{ F []Alias }
type T76 []Alias
type F77 struct{ F []Unexp }
type T77 []Unexp
type F78 struct{ F []NPDeep }
type T78 []NPDeep
type F79 struct{ F []NPVal }
type T79 []NPVal
type F80 struct{ F []NPPtr }
type T80 []NPPtr
type F81 struct{ F []AStr }
type T81 []AStr
type F82 struct{ F []ADeep }
type T82 []ADeep
type F83 struct{ F []AFlat }
type T83 []AFlat
type F84 struct{ F []APtr }
type T84 []APtr
type F85 struct{ F map[string]int }
type T85 map[string]int
type F86 struct{ F map[string]string }
type T86 map[string]string
type F87 struct{ F map[string]bool }
type T87 map[string]bool
type F88 struct{ F map[string]Flat }
type T88 map[string]Flat
type F89 struct{ F map[string]Deep }
type T89 map[string]Deep
type F90 struct{ F map[string]NInt }
type T90 map[string]NInt
type F91 struct{ F map[string]NPtr }
type T91 map[string]NPtr
type F92 struct{ F map[string]NMap }
type T92 map[string]NMap
type F93 struct{ F map[string]NSlice }
type T93 map[string]NSlice
type F94 struct{ F map[string]NNMap }
type T94 map[string]NNMap
type F95 struct{ F map[string]NDeep }
type T95 map[string]NDeep
type F96 struct{ F map[string]MVal }
type T96 map[string]MVal
type F97 struct{ F map[string]MPtr }
type T97 map[string]MPtr
type F98 struct{ F map[string]MInto }
type T98 map[string]MInto
type F99 struct{ F map[string]MMap }
type T99 map[string]MMap
type F100 struct{ F map[string]Emb }
type T100 map[string]Emb
type F101 struct{ F map[string]Rec }
type T101 map[string]Rec
type F102 struct{ F map[string]ext.Manual }
type T102 map[string]ext.Manual
type F103 struct{ F map[string]ext.Gen }
type T103 map[string]ext.Gen
type F104 struct{ F map[string]Alias }
type T104 map[string]Alias
type F105 struct{ F map[string]Unexp }
type T105 map[string]Unexp
type F106 struct{ F map[string]NPDeep }
type T106 map[string]NPDeep
type F107 struct{ F map[string]NPVal }
type T107 map[string]NPVal
type F108 struct{ F map[string]NPPtr }
type T108 map[string]NPPtr
type F109 struct{ F map[string]AStr }
type T109 map[string]AStr
type F110 struct{ F map[string]ADeep }
type T110 map[string]ADeep
type F111 struct{ F map[string]AFlat }
type T111 map[string]AFlat
type F112 struct{ F map[string]APtr }
type T112 map[string]APtr
type F113 struct{ F **int }
type F114 struct{ F **string }
type F115 struct{ F **bool }
type F116 struct{ F **Flat }
type F117 struct{ F **Deep }
type F118 struct{ F **NInt }
type F119 struct{ F **NPtr }
type T119 **NPtr // a pointer has no methods
type F120 struct{ F **NMap }
type F121 struct{ F **NSlice }
type F122 struct{ F **NNMap }
type F123 struct{ F **NDeep }
type F124 struct{ F **MVal }
type F125 struct{ F **MPtr }
type F126 struct{ F **MInto }
type F127 struct{ F **MMap }
type F128 struct{ F **Emb }
type F129 struct{ F **Rec }
type F130 struct{ F **ext.Manual }
type F131 struct{ F **ext.Gen }
type F132 struct{ F **Alias }
type F133 struct{ F **Unexp }
type F134 struct{ F **NPDeep }
type T134 **NPDeep // a pointer has no methods
type F135 struct{ F **NPVal }
type T135 **NPVal // a pointer has no methods
type F136 struct{ F **NPPtr }
type T136 **NPPtr // a pointer has no methods
type F137 struct{ F **AStr }
type F138 struct{ F **ADeep }
type F139 struct{ F **AFlat }
type F140 struct{ F **APtr }
type F141 struct{ F *[]int }
type F142 struct{ F *[]string }
type F143 struct{ F *[]bool }
type F144 struct{ F *[]Flat }
type F145 struct{ F *[]Deep }
type F146 struct{ F *[]NInt }
type F147 struct{ F *[]NPtr }
type T147 *[]NPtr // a pointer has no methods
type F148 struct{ F *[]NMap }
type F149 struct{ F *[]NSlice }
type F150 struct{ F *[]NNMap }
type F151 struct{ F *[]NDeep }
type F152 struct{ F *[]MVal }
type F153 struct{ F *[]MPtr }
type F154 struct{ F *[]MInto }
type F155 struct{ F *[]MMap }
type F156 struct{ F *[]Emb }
type F157 struct{ F *[]Rec }
type F158 struct{ F *[]ext.Manual }
type F159 struct{ F *[]ext.Gen }
type F160 struct{ F *[]Alias }
type F161 struct{ F *[]Unexp }
type F162 struct{ F *[]NPDeep }
type T162 *[]NPDeep // a pointer has no methods
type F163 struct{ F *[]NPVal }
type T163 *[]NPVal // a pointer has no methods
type F164 struct{ F *[]NPPtr }
type T164 *[]NPPtr // a pointer has no methods
type F165 struct{ F *[]AStr }
type F166 struct{ F *[]ADeep }
type F167 struct{ F *[]AFlat }
type F168 struct{ F *[]APtr }
type F169 struct{ F *map[string]int }
type F170 struct{ F *map[string]string }
type F171 struct{ F *map[string]bool }
type F172 struct{ F *map[string]Flat }
type F173 struct{ F *map[string]Deep }
type F174 struct{ F *map[string]NInt }
type F175 struct{ F *map[string]NPtr }
type T175 *map[string]NPtr // a pointer has no methods
type F176 struct{ F *map[string]NMap }
type F177 struct{ F *map[string]NSlice }
type F178 struct{ F *map[string]NNMap }
type F179 struct{ F *map[string]NDeep }
type F180 struct{ F *map[string]MVal }
type F181 struct{ F *map[string]MPtr }
type F182 struct{ F *map[string]MInto }
type F183 struct{ F *map[string]MMap }
type F184 struct{ F *map[string]Emb }
type F185 struct{ F *map[string]Rec }
type F186 struct{ F *map[string]ext.Manual }
type F187 struct{ F *map[string]ext.Gen }
type F188 struct{ F *map[string]Alias }
type F189 struct{ F *map[string]Unexp }
type F190 struct{ F *map[string]NPDeep }
type T190 *map[string]NPDeep // a pointer has no methods
type F191 struct{ F *map[string]NPVal }
type T191 *map[string]NPVal // a pointer has no methods
type F192 struct{ F *map[string]NPPtr }
type T192 *map[string]NPPtr // a pointer has no methods
type F193 struct{ F *map[string]AStr }
type F194 struct{ F *map[string]ADeep }
type F195 struct{ F *map[string]AFlat }
type F196 struct{ F *map[string]APtr }
type F197 struct{ F []*int }
type F198 struct{ F []*string }
type F199 struct{ F []*bool }
type F200 struct{ F []*Flat }
type F201 struct{ F []*Deep }
type F202 struct{ F []*NInt }
type F203 struct{ F []*NPtr }
type T203 []*NPtr // a pointer has no methods
type F204 struct{ F []*NMap }
type F205 struct{ F []*NSlice }
type F206 struct{ F []*NNMap }
type F207 struct{ F []*NDeep }
type F208 struct{ F []*MVal }
type F209 struct{ F []*MPtr }
type F210 struct{ F []*MInto }
type F211 struct{ F []*MMap }
type F212 struct{ F []*Emb }
type F213 struct{ F []*Rec }
type F214 struct{ F []*ext.Manual }
type F215 struct{ F []*ext.Gen }
type F216 struct{ F []*Alias }
type F217 struct{ F []*Unexp }
type F218 struct{ F []*NPDeep }
type T218 []*NPDeep // a pointer has no methods
type F219 struct{ F []*NPVal }
type T219 []*NPVal // a pointer has no methods
type F220 struct{ F []*NPPtr }
type T220 []*NPPtr // a pointer has no methods
type F221 struct{ F []*AStr }
type F222 struct{ F []*ADeep }
type F223 struct{ F []*AFlat }
type F224 struct{ F []*APtr }
type F225 struct{ F [][]int }
type F226 struct{ F [][]string }
type F227 struct{ F [][]bool }
type F228 struct{ F [][]Flat }
type F229 struct{ F [][]Deep }
type F230 struct{ F [][]NInt }
type F231 struct{ F [][]NPtr }
type T231 [][]NPtr // a pointer has no methods
type F232 struct{ F [][]NMap }
type F233 struct{ F [][]NSlice }
type F234 struct{ F [][]NNMap }
type F235 struct{ F [][]NDeep }
type F236 struct{ F [][]MVal }
type F237 struct{ F [][]MPtr }
type F238 struct{ F [][]MInto }
type F239 struct{ F [][]MMap }
type F240 struct{ F [][]Emb }
type F241 struct{ F [][]Rec }
type F242 struct{ F [][]ext.Manual }
type F243 struct{ F [][]ext.Gen }
type F244 struct{ F [][]Alias }
type F245 struct{ F [][]Unexp }
type F246 struct{ F [][]NPDeep }
type T246 [][]NPDeep // a pointer has no methods
type F247 struct{ F [][]NPVal }
type T247 [][]NPVal // a pointer has no methods
type F248 struct{ F [][]NPPtr }
type T248 [][]NPPtr // a pointer has no methods
type F249 struct{ F [][]AStr }
type F250 struct{ F [][]ADeep }
type F251 struct{ F [][]AFlat }
type F252 struct{ F [][]APtr }
type F253 struct{ F []map[string]int }
type F254 struct{ F []map[string]string }
type F255 struct{ F []map[string]bool }
type F256 struct{ F []map[string]Flat }
type F257 struct{ F []map[string]Deep }
type F258 struct{ F []map[string]NInt }
type F259 struct{ F []map[string]NPtr }
type T259 []map[string]NPtr // a pointer has no methods
type F260 struct{ F []map[string]NMap }
type F261 struct{ F []map[string]NSlice }
type F262 struct{ F []map[string]NNMap }
type F263 struct{ F []map[string]NDeep }
type F264 struct{ F []map[string]MVal }
type F265 struct{ F []map[string]MPtr }
type F266 struct{ F []map[string]MInto }
type F267 struct{ F []map[string]MMap }
type F268 struct{ F []map[string]Emb }
type F269 struct{ F []map[string]Rec }
type F270 struct{ F []map[string]ext.Manual }
type F271 struct{ F []map[string]ext.Gen }
type F272 struct{ F []map[string]Alias }
type F273 struct{ F []map[string]Unexp }
type F274 struct{ F []map[string]NPDeep }
type T274 []map[string]NPDeep // a pointer has no methods
type F275 struct{ F []map[string]NPVal }
type T275 []map[string]NPVal // a pointer has no methods
type F276 struct{ F []map[string]NPPtr }
type T276 []map[string]NPPtr // a pointer has no methods
type F277 struct{ F []map[string]AStr }
type F278 struct{ F []map[string]ADeep }
type F279 struct{ F []map[string]AFlat }
type F280 struct{ F []map[string]APtr }
type F281 struct{ F map[string]*int }
type F282 struct{ F map[string]*string }
type F283 struct{ F map[string]*bool }
type F284 struct{ F map[string]*Flat }
type F285 struct{ F map[string]*Deep }
type F286 struct{ F map[string]*NInt }
type F287 struct{ F map[string]*NPtr }
type T287 map[string]*NPtr // a pointer has no methods
type F288 struct{ F map[string]*NMap }
type F289 struct{ F map[string]*NSlice }
type F290 struct{ F map[string]*NNMap }
type F291 struct{ F map[string]*NDeep }
type F292 struct{ F map[string]*MVal }
type F293 struct{ F map[string]*MPtr }
type F294 struct{ F map[string]*MInto }
type F295 struct{ F map[string]*MMap }
type F296 struct{ F map[string]*Emb }
type F297 struct{ F map[string]*Rec }
type F298 struct{ F map[string]*ext.Manual }
type F299 struct{ F map[string]*ext.Gen }
type F300 struct{ F map[string]*Alias }
type F301 struct{ F map[string]*Unexp }
type F302 struct{ F map[string]*NPDeep }
type T302 map[string]*NPDeep // a pointer has no methods
type F303 struct{ F map[string]*NPVal }
type T303 map[string]*NPVal // a pointer has no methods
type F304 struct{ F map[string]*NPPtr }
type T304 map[string]*NPPtr // a pointer has no methods
type F305 struct{ F map[string]*AStr }
type F306 struct{ F map[string]*ADeep }
type F307 struct{ F map[string]*AFlat }
type F308 struct{ F map[string]*APtr }
type F309 struct{ F map[string][]int }
type F310 struct{ F map[string][]string }
type F311 struct{ F map[string][]bool }
type F312 struct{ F map[string][]Flat }
type F313 struct{ F map[string][]Deep }
type F314 struct{ F map[string][]NInt }
type F315 struct{ F map[string][]NPtr }
type T315 map[string][]NPtr // a pointer has no methods
type F316 struct{ F map[string][]NMap }
type F317 struct{ F map[string][]NSlice }
type F318 struct{ F map[string][]NNMap }
type F319 struct{ F map[string][]NDeep }
type F320 struct{ F map[string][]MVal }
type F321 struct{ F map[string][]MPtr }
type F322 struct{ F map[string][]MInto }
type F323 struct{ F map[string][]MMap }
type F324 struct{ F map[string][]Emb }
type F325 struct{ F map[string][]Rec }
type F326 struct{ F map[string][]ext.Manual }
type F327 struct{ F map[string][]ext.Gen }
type F328 struct{ F map[string][]Alias }
type F329 struct{ F map[string][]Unexp }
type F330 struct{ F map[string][]NPDeep }
type T330 map[string][]NPDeep // a pointer has no methods
type F331 struct{ F map[string][]NPVal }
type T331 map[string][]NPVal // a pointer has no methods
type F332 struct{ F map[string][]NPPtr }
type T332 map[string][]NPPtr // a pointer has no methods
type F333 struct{ F map[string][]AStr }
type F334 struct{ F map[string][]ADeep }
type F335 struct{ F map[string][]AFlat }
type F336 struct{ F map[string][]APtr }
type F337 struct{ F map[string]map[string]int }
type F338 struct{ F map[string]map[string]string }
type F339 struct{ F map[string]map[string]bool }
type F340 struct{ F map[string]map[string]Flat }
type F341 struct{ F map[string]map[string]Deep }
type F342 struct{ F map[string]map[string]NInt }
type F343 struct{ F map[string]map[string]NPtr }
type T343 map[string]map[string]NPtr // a pointer has no methods
type F344 struct{ F map[string]map[string]NMap }
type F345 struct{ F map[string]map[string]NSlice }
type F346 struct{ F map[string]map[string]NNMap }
type F347 struct{ F map[string]map[string]NDeep }
type F348 struct{ F map[string]map[string]MVal }
type F349 struct{ F map[string]map[string]MPtr }
type F350 struct{ F map[string]map[string]MInto }
type F351 struct{ F map[string]map[string]MMap }
type F352 struct{ F map[string]map[string]Emb }
type F353 struct{ F map[string]map[string]Rec }
type F354 struct {
	F map[string]map[string]ext.Manual
}
type F355 struct{ F map[string]map[string]ext.Gen }
type F356 struct{ F map[string]map[string]Alias }
type F357 struct{ F map[string]map[string]Unexp }
type F358 struct{ F map[string]map[string]NPDeep }
type T358 map[string]map[string]NPDeep // a pointer has no methods
type F359 struct{ F map[string]map[string]NPVal }
type T359 map[string]map[string]NPVal // a pointer has no methods
type F360 struct{ F map[string]map[string]NPPtr }
type T360 map[string]map[string]NPPtr // a pointer has no methods
type F361 struct{ F map[string]map[string]AStr }
type F362 struct{ F map[string]map[string]ADeep }
type F363 struct{ F map[string]map[string]AFlat }
type F364 struct{ F map[string]map[string]APtr }
type F365 struct{ F ***int }
type F366 struct{ F ***Deep }
type F367 struct{ F ***NMap }
type F368 struct{ F ***MVal }
type F369 struct{ F ***MPtr }
type F370 struct{ F **[]int }
type F371 struct{ F **[]Deep }
type F372 struct{ F **[]NMap }
type F373 struct{ F **[]MVal }
type F374 struct{ F **[]MPtr }
type F375 struct{ F **map[string]int }
type F376 struct{ F **map[string]Deep }
type F377 struct{ F **map[string]NMap }
type F378 struct{ F **map[string]MVal }
type F379 struct{ F **map[string]MPtr }
type F380 struct{ F *[]*int }
type F381 struct{ F *[]*Deep }
type F382 struct{ F *[]*NMap }
type F383 struct{ F *[]*MVal }
type F384 struct{ F *[]*MPtr }
type F385 struct{ F *[][]int }
type F386 struct{ F *[][]Deep }
type F387 struct{ F *[][]NMap }
type F388 struct{ F *[][]MVal }
type F389 struct{ F *[][]MPtr }
type F390 struct{ F *[]map[string]int }
type F391 struct{ F *[]map[string]Deep }
type F392 struct{ F *[]map[string]NMap }
type F393 struct{ F *[]map[string]MVal }
type F394 struct{ F *[]map[string]MPtr }
type F395 struct{ F *map[string]*int }
type F396 struct{ F *map[string]*Deep }
type F397 struct{ F *map[string]*NMap }
type F398 struct{ F *map[string]*MVal }
type F399 struct{ F *map[string]*MPtr }
type F400 struct{ F *map[string][]int }
type F401 struct{ F *map[string][]Deep }
type F402 struct{ F *map[string][]NMap }
type F403 struct{ F *map[string][]MVal }
type F404 struct{ F *map[string][]MPtr }
type F405 struct{ F *map[string]map[string]int }
type F406 struct{ F *map[string]map[string]Deep }
type F407 struct{ F *map[string]map[string]NMap }
type F408 struct{ F *map[string]map[string]MVal }
type F409 struct{ F *map[string]map[string]MPtr }
type F410 struct{ F []**int }
type F411 struct{ F []**Deep }
type F412 struct{ F []**NMap }
type F413 struct{ F []**MVal }
type F414 struct{ F []**MPtr }
type F415 struct{ F []*[]int }
type F416 struct{ F []*[]Deep }
type F417 struct{ F []*[]NMap }
type F418 struct{ F []*[]MVal }
type F419 struct{ F []*[]MPtr }
type F420 struct{ F []*map[string]int }
type F421 struct{ F []*map[string]Deep }
type F422 struct{ F []*map[string]NMap }
type F423 struct{ F []*map[string]MVal }
type F424 struct{ F []*map[string]MPtr }
type F425 struct{ F [][]*int }
type F426 struct{ F [][]*Deep }
type F427 struct{ F [][]*NMap }
type F428 struct{ F [][]*MVal }
type F429 struct{ F [][]*MPtr }
type F430 struct{ F [][][]int }
type F431 struct{ F [][][]Deep }
type F432 struct{ F [][][]NMap }
type F433 struct{ F [][][]MVal }
type F434 struct{ F [][][]MPtr }
type F435 struct{ F [][]map[string]int }
type F436 struct{ F [][]map[string]Deep }
type F437 struct{ F [][]map[string]NMap }
type F438 struct{ F [][]map[string]MVal }
type F439 struct{ F [][]map[string]MPtr }
type F440 struct{ F []map[string]*int }
type F441 struct{ F []map[string]*Deep }
type F442 struct{ F []map[string]*NMap }
type F443 struct{ F []map[string]*MVal }
type F444 struct{ F []map[string]*MPtr }
type F445 struct{ F []map[string][]int }
type F446 struct{ F []map[string][]Deep }
type F447 struct{ F []map[string][]NMap }
type F448 struct{ F []map[string][]MVal }
type F449 struct{ F []map[string][]MPtr }
type F450 struct{ F []map[string]map[string]int }
type F451 struct{ F []map[string]map[string]Deep }
type F452 struct{ F []map[string]map[string]NMap }
type F453 struct{ F []map[string]map[string]MVal }
type F454 struct{ F []map[string]map[string]MPtr }
type F455 struct{ F map[string]**int }
type F456 struct{ F map[string]**Deep }
type F457 struct{ F map[string]**NMap }
type F458 struct{ F map[string]**MVal }
type F459 struct{ F map[string]**MPtr }
type F460 struct{ F map[string]*[]int }
type F461 struct{ F map[string]*[]Deep }
type F462 struct{ F map[string]*[]NMap }
type F463 struct{ F map[string]*[]MVal }
type F464 struct{ F map[string]*[]MPtr }
type F465 struct{ F map[string]*map[string]int }
type F466 struct{ F map[string]*map[string]Deep }
type F467 struct{ F map[string]*map[string]NMap }
type F468 struct{ F map[string]*map[string]MVal }
type F469 struct{ F map[string]*map[string]MPtr }
type F470 struct{ F map[string][]*int }
type F471 struct{ F map[string][]*Deep }
type F472 struct{ F map[string][]*NMap }
type F473 struct{ F map[string][]*MVal }
type F474 struct{ F map[string][]*MPtr }
type F475 struct{ F map[string][][]int }
type F476 struct{ F map[string][][]Deep }
type F477 struct{ F map[string][][]NMap }
type F478 struct{ F map[string][][]MVal }
type F479 struct{ F map[string][][]MPtr }
type F480 struct{ F map[string][]map[string]int }
type F481 struct{ F map[string][]map[string]Deep }
type F482 struct{ F map[string][]map[string]NMap }
type F483 struct{ F map[string][]map[string]MVal }
type F484 struct{ F map[string][]map[string]MPtr }
type F485 struct{ F map[string]map[string]*int }
type F486 struct{ F map[string]map[string]*Deep }
type F487 struct{ F map[string]map[string]*NMap }
type F488 struct{ F map[string]map[string]*MVal }
type F489 struct{ F map[string]map[string]*MPtr }
type F490 struct{ F map[string]map[string][]int }
type F491 struct{ F map[string]map[string][]Deep }
type F492 struct{ F map[string]map[string][]NMap }
type F493 struct{ F map[string]map[string][]MVal }
type F494 struct{ F map[string]map[string][]MPtr }
type F495 struct {
	F map[string]map[string]map[string]int
}
type F496 struct {
	F map[string]map[string]map[string]Deep
}
type F497 struct {
	F map[string]map[string]map[string]NMap
}
type F498 struct {
	F map[string]map[string]map[string]MVal
}
type F499 struct {
	F map[string]map[string]map[string]MPtr
}

// All has a pointer to a new value of each type.
var All = []func() any{
	func() any { return new(Flat) },     // Flat
	func() any { return new(Deep) },     // Deep
	func() any { return new(NMap) },     // NMap
	func() any { return new(NSlice) },   // NSlice
	func() any { return new(NNMap) },    // NNMap
	func() any { return new(NDeep) },    // NDeep
	func() any { return new(Emb) },      // Emb
	func() any { return new(Rec) },      // Rec
	func() any { return new(Unexp) },    // Unexp
	func() any { return new(MVal) },     // MVal
	func() any { return new(MPtr) },     // MPtr
	func() any { return new(MInto) },    // MInto
	func() any { return new(MMap) },     // MMap
	func() any { return new(Root) },     // Root
	func() any { return new(RootList) }, // RootList
	func() any { return new(Keys) },     // Keys
	func() any { return new(Many) },     // Many
	func() any { return new(F1) },       // F1
	func() any { return new(F2) },       // F2
	func() any { return new(F3) },       // F3
	func() any { return new(F4) },       // F4
	func() any { return new(T4) },       // T4
	func() any { return new(F5) },       // F5
	func() any { return new(T5) },       // T5
	func() any { return new(F6) },       // F6
	func() any { return new(F7) },       // F7
	func() any { return new(F8) },       // F8
	func() any { return new(T8) },       // T8
	func() any { return new(F9) },       // F9
	func() any { return new(T9) },       // T9
	func() any { return new(F10) },      // F10
	func() any { return new(T10) },      // T10
	func() any { return new(F11) },      // F11
	func() any { return new(T11) },      // T11
	func() any { return new(F12) },      // F12
	func() any { return new(T12) },      // T12
	func() any { return new(F13) },      // F13
	func() any { return new(T13) },      // T13
	func() any { return new(F14) },      // F14
	func() any { return new(T14) },      // T14
	func() any { return new(F15) },      // F15
	func() any { return new(T15) },      // T15
	func() any { return new(F16) },      // F16
	func() any { return new(T16) },      // T16
	func() any { return new(F17) },      // F17
	func() any { return new(T17) },      // T17
	func() any { return new(F18) },      // F18
	func() any { return new(F19) },      // F19
	func() any { return new(F20) },      // F20
	func() any { return new(F21) },      // F21
	func() any { return new(F22) },      // F22
	func() any { return new(F23) },      // F23
	func() any { return new(F24) },      // F24
	func() any { return new(F25) },      // F25
	func() any { return new(F26) },      // F26
	func() any { return new(F27) },      // F27
	func() any { return new(F28) },      // F28
	func() any { return new(F29) },      // F29
	func() any { return new(F30) },      // F30
	func() any { return new(F31) },      // F31
	func() any { return new(F32) },      // F32
	func() any { return new(F33) },      // F33
	func() any { return new(F34) },      // F34
	func() any { return new(F35) },      // F35
	func() any { return new(F36) },      // F36
	func() any { return new(F37) },      // F37
	func() any { return new(F38) },      // F38
	func() any { return new(F39) },      // F39
	func() any { return new(F40) },      // F40
	func() any { return new(F41) },      // F41
	func() any { return new(F42) },      // F42
	func() any { return new(F43) },      // F43
	func() any { return new(F44) },      // F44
	func() any { return new(F45) },      // F45
	func() any { return new(F46) },      // F46
	func() any { return new(F47) },      // F47
	func() any { return new(F48) },      // F48
	func() any { return new(F49) },      // F49
	func() any { return new(F50) },      // F50
	func() any { return new(F51) },      // F51
	func() any { return new(F52) },      // F52
	func() any { return new(F53) },      // F53
	func() any { return new(F54) },      // F54
	func() any { return new(F55) },      // F55
	func() any { return new(F56) },      // F56
	func() any { return new(F57) },      // F57
	func() any { return new(T57) },      // T57
	func() any { return new(F58) },      // F58
	func() any { return new(T58) },      // T58
	func() any { return new(F59) },      // F59
	func() any { return new(T59) },      // T59
	func() any { return new(F60) },      // F60
	func() any { return new(T60) },      // T60
	func() any { return new(F61) },      // F61
	func() any { return new(T61) },      // T61
	func() any { return new(F62) },      // F62
	func() any { return new(T62) },      // T62
	func() any { return new(F63) },      // F63
	func() any { return new(T63) },      // T63
	func() any { return new(F64) },      // F64
	func() any { return new(T64) },      // T64
	func() any { return new(F65) },      // F65
	func() any { return new(T65) },      // T65
	func() any { return new(F66) },      // F66
	func() any { return new(T66) },      // T66
	func() any { return new(F67) },      // F67
	func() any { return new(T67) },      // T67
	func() any { return new(F68) },      // F68
	func() any { return new(T68) },      // T68
	func() any { return new(F69) },      // F69
	func() any { return new(T69) },      // T69
	func() any { return new(F70) },      // F70
	func() any { return new(T70) },      // T70
	func() any { return new(F71) },      // F71
	func() any { return new(T71) },      // T71
	func() any { return new(F72) },      // F72
	func() any { return new(T72) },      // T72
	func() any { return new(F73) },      // F73
	func() any { return new(T73) },      // T73
	func() any { return new(F74) },      // F74
	func() any { return new(T74) },      // T74
	func() any { return new(F75) },      // F75
	func() any { return new(T75) },      // T75
	func() any { return new(F76) },      // F76
	func() any { return new(T76) },      // T76
	func() any { return new(F77) },      // F77
	func() any { return new(T77) },      // T77
	func() any { return new(F78) },      // F78
	func() any { return new(T78) },      // T78
	func() any { return new(F79) },      // F79
	func() any { return new(T79) },      // T79
	func() any { return new(F80) },      // F80
	func() any { return new(T80) },      // T80
	func() any { return new(F81) },      // F81
	func() any { return new(T81) },      // T81
	func() any { return new(F82) },      // F82
	func() any { return new(T82) },      // T82
	func() any { return new(F83) },      // F83
	func() any { return new(T83) },      // T83
	func() any { return new(F84) },      // F84
	func() any { return new(T84) },      // T84
	func() any { return new(F85) },      // F85
	func() any { return new(T85) },      // T85
	func() any { return new(F86) },      // F86
	func() any { return new(T86) },      // T86
	func() any { return new(F87) },      // F87
	func() any { return new(T87) },      // T87
	func() any { return new(F88) },      // F88
	func() any { return new(T88) },      // T88
	func() any { return new(F89) },      // F89
	func() any { return new(T89) },      // T89
	func() any { return new(F90) },      // F90
	func() any { return new(T90) },      // T90
	func() any { return new(F91) },      // F91
	func() any { return new(T91) },      // T91
	func() any { return new(F92) },      // F92
	func() any { return new(T92) },      // T92
	func() any { return new(F93) },      // F93
	func() any { return new(T93) },      // T93
	func() any { return new(F94) },      // F94
	func() any { return new(T94) },      // T94
	func() any { return new(F95) },      // F95
	func() any { return new(T95) },      // T95
	func() any { return new(F96) },      // F96
	func() any { return new(T96) },      // T96
	func() any { return new(F97) },      // F97
	func() any { return new(T97) },      // T97
	func() any { return new(F98) },      // F98
	func() any { return new(T98) },      // T98
	func() any { return new(F99) },      // F99
	func() any { return new(T99) },      // T99
	func() any { return new(F100) },     // F100
	func() any { return new(T100) },     // T100
	func() any { return new(F101) },     // F101
	func() any { return new(T101) },     // T101
	func() any { return new(F102) },     // F102
	func() any { return new(T102) },     // T102
	func() any { return new(F103) },     // F103
	func() any { return new(T103) },     // T103
	func() any { return new(F104) },     // F104
	func() any { return new(T104) },     // T104
	func() any { return new(F105) },     // F105
	func() any { return new(T105) },     // T105
	func() any { return new(F106) },     // F106
	func() any { return new(T106) },     // T106
	func() any { return new(F107) },     // F107
	func() any { return new(T107) },     // T107
	func() any { return new(F108) },     // F108
	func() any { return new(T108) },     // T108
	func() any { return new(F109) },     // F109
	func() any { return new(T109) },     // T109
	func() any { return new(F110) },     // F110
	func() any { return new(T110) },     // T110
	func() any { return new(F111) },     // F111
	func() any { return new(T111) },     // T111
	func() any { return new(F112) },     // F112
	func() any { return new(T112) },     // T112
	func() any { return new(F113) },     // F113
	func() any { return new(F114) },     // F114
	func() any { return new(F115) },     // F115
	func() any { return new(F116) },     // F116
	func() any { return new(F117) },     // F117
	func() any { return new(F118) },     // F118
	func() any { return new(F119) },     // F119
	func() any { return new(F120) },     // F120
	func() any { return new(F121) },     // F121
	func() any { return new(F122) },     // F122
	func() any { return new(F123) },     // F123
	func() any { return new(F124) },     // F124
	func() any { return new(F125) },     // F125
	func() any { return new(F126) },     // F126
	func() any { return new(F127) },     // F127
	func() any { return new(F128) },     // F128
	func() any { return new(F129) },     // F129
	func() any { return new(F130) },     // F130
	func() any { return new(F131) },     // F131
	func() any { return new(F132) },     // F132
	func() any { return new(F133) },     // F133
	func() any { return new(F134) },     // F134
	func() any { return new(F135) },     // F135
	func() any { return new(F136) },     // F136
	func() any { return new(F137) },     // F137
	func() any { return new(F138) },     // F138
	func() any { return new(F139) },     // F139
	func() any { return new(F140) },     // F140
	func() any { return new(F141) },     // F141
	func() any { return new(F142) },     // F142
	func() any { return new(F143) },     // F143
	func() any { return new(F144) },     // F144
	func() any { return new(F145) },     // F145
	func() any { return new(F146) },     // F146
	func() any { return new(F147) },     // F147
	func() any { return new(F148) },     // F148
	func() any { return new(F149) },     // F149
	func() any { return new(F150) },     // F150
	func() any { return new(F151) },     // F151
	func() any { return new(F152) },     // F152
	func() any { return new(F153) },     // F153
	func() any { return new(F154) },     // F154
	func() any { return new(F155) },     // F155
	func() any { return new(F156) },     // F156
	func() any { return new(F157) },     // F157
	func() any { return new(F158) },     // F158
	func() any { return new(F159) },     // F159
	func() any { return new(F160) },     // F160
	func() any { return new(F161) },     // F161
	func() any { return new(F162) },     // F162
	func() any { return new(F163) },     // F163
	func() any { return new(F164) },     // F164
	func() any { return new(F165) },     // F165
	func() any { return new(F166) },     // F166
	func() any { return new(F167) },     // F167
	func() any { return new(F168) },     // F168
	func() any { return new(F169) },     // F169
	func() any { return new(F170) },     // F170
	func() any { return new(F171) },     // F171
	func() any { return new(F172) },     // F172
	func() any { return new(F173) },     // F173
	func() any { return new(F174) },     // F174
	func() any { return new(F175) },     // F175
	func() any { return new(F176) },     // F176
	func() any { return new(F177) },     // F177
	func() any { return new(F178) },     // F178
	func() any { return new(F179) },     // F179
	func() any { return new(F180) },     // F180
	func() any { return new(F181) },     // F181
	func() any { return new(F182) },     // F182
	func() any { return new(F183) },     // F183
	func() any { return new(F184) },     // F184
	func() any { return new(F185) },     // F185
	func() any { return new(F186) },     // F186
	func() any { return new(F187) },     // F187
	func() any { return new(F188) },     // F188
	func() any { return new(F189) },     // F189
	func() any { return new(F190) },     // F190
	func() any { return new(F191) },     // F191
	func() any { return new(F192) },     // F192
	func() any { return new(F193) },     // F193
	func() any { return new(F194) },     // F194
	func() any { return new(F195) },     // F195
	func() any { return new(F196) },     // F196
	func() any { return new(F197) },     // F197
	func() any { return new(F198) },     // F198
	func() any { return new(F199) },     // F199
	func() any { return new(F200) },     // F200
	func() any { return new(F201) },     // F201
	func() any { return new(F202) },     // F202
	func() any { return new(F203) },     // F203
	func() any { return new(F204) },     // F204
	func() any { return new(F205) },     // F205
	func() any { return new(F206) },     // F206
	func() any { return new(F207) },     // F207
	func() any { return new(F208) },     // F208
	func() any { return new(F209) },     // F209
	func() any { return new(F210) },     // F210
	func() any { return new(F211) },     // F211
	func() any { return new(F212) },     // F212
	func() any { return new(F213) },     // F213
	func() any { return new(F214) },     // F214
	func() any { return new(F215) },     // F215
	func() any { return new(F216) },     // F216
	func() any { return new(F217) },     // F217
	func() any { return new(F218) },     // F218
	func() any { return new(F219) },     // F219
	func() any { return new(F220) },     // F220
	func() any { return new(F221) },     // F221
	func() any { return new(F222) },     // F222
	func() any { return new(F223) },     // F223
	func() any { return new(F224) },     // F224
	func() any { return new(F225) },     // F225
	func() any { return new(F226) },     // F226
	func() any { return new(F227) },     // F227
	func() any { return new(F228) },     // F228
	func() any { return new(F229) },     // F229
	func() any { return new(F230) },     // F230
	func() any { return new(F231) },     // F231
	func() any { return new(F232) },     // F232
	func() any { return new(F233) },     // F233
	func() any { return new(F234) },     // F234
	func() any { return new(F235) },     // F235
	func() any { return new(F236) },     // F236
	func() any { return new(F237) },     // F237
	func() any { return new(F238) },     // F238
	func() any { return new(F239) },     // F239
	func() any { return new(F240) },     // F240
	func() any { return new(F241) },     // F241
	func() any { return new(F242) },     // F242
	func() any { return new(F243) },     // F243
	func() any { return new(F244) },     // F244
	func() any { return new(F245) },     // F245
	func() any { return new(F246) },     // F246
	func() any { return new(F247) },     // F247
	func() any { return new(F248) },     // F248
	func() any { return new(F249) },     // F249
	func() any { return new(F250) },     // F250
	func() any { return new(F251) },     // F251
	func() any { return new(F252) },     // F252
	func() any { return new(F253) },     // F253
	func() any { return new(F254) },     // F254
	func() any { return new(F255) },     // F255
	func() any { return new(F256) },     // F256
	func() any { return new(F257) },     // F257
	func() any { return new(F258) },     // F258
	func() any { return new(F259) },     // F259
	func() any { return new(F260) },     // F260
	func() any { return new(F261) },     // F261
	func() any { return new(F262) },     // F262
	func() any { return new(F263) },     // F263
	func() any { return new(F264) },     // F264
	func() any { return new(F265) },     // F265
	func() any { return new(F266) },     // F266
	func() any { return new(F267) },     // F267
	func() any { return new(F268) },     // F268
	func() any { return new(F269) },     // F269
	func() any { return new(F270) },     // F270
	func() any { return new(F271) },     // F271
	func() any { return new(F272) },     // F272
	func() any { return new(F273) },     // F273
	func() any { return new(F274) },     // F274
	func() any { return new(F275) },     // F275
	func() any { return new(F276) },     // F276
	func() any { return new(F277) },     // F277
	func() any { return new(F278) },     // F278
	func() any { return new(F279) },     // F279
	func() any { return new(F280) },     // F280
	func() any { return new(F281) },     // F281
	func() any { return new(F282) },     // F282
	func() any { return new(F283) },     // F283
	func() any { return new(F284) },     // F284
	func() any { return new(F285) },     // F285
	func() any { return new(F286) },     // F286
	func() any { return new(F287) },     // F287
	func() any { return new(F288) },     // F288
	func() any { return new(F289) },     // F289
	func() any { return new(F290) },     // F290
	func() any { return new(F291) },     // F291
	func() any { return new(F292) },     // F292
	func() any { return new(F293) },     // F293
	func() any { return new(F294) },     // F294
	func() any { return new(F295) },     // F295
	func() any { return new(F296) },     // F296
	func() any { return new(F297) },     // F297
	func() any { return new(F298) },     // F298
	func() any { return new(F299) },     // F299
	func() any { return new(F300) },     // F300
	func() any { return new(F301) },     // F301
	func() any { return new(F302) },     // F302
	func() any { return new(F303) },     // F303
	func() any { return new(F304) },     // F304
	func() any { return new(F305) },     // F305
	func() any { return new(F306) },     // F306
	func() any { return new(F307) },     // F307
	func() any { return new(F308) },     // F308
	func() any { return new(F309) },     // F309
	func() any { return new(F310) },     // F310
	func() any { return new(F311) },     // F311
	func() any { return new(F312) },     // F312
	func() any { return new(F313) },     // F313
	func() any { return new(F314) },     // F314
	func() any { return new(F315) },     // F315
	func() any { return new(F316) },     // F316
	func() any { return new(F317) },     // F317
	func() any { return new(F318) },     // F318
	func() any { return new(F319) },     // F319
	func() any { return new(F320) },     // F320
	func() any { return new(F321) },     // F321
	func() any { return new(F322) },     // F322
	func() any { return new(F323) },     // F323
	func() any { return new(F324) },     // F324
	func() any { return new(F325) },     // F325
	func() any { return new(F326) },     // F326
	func() any { return new(F327) },     // F327
	func() any { return new(F328) },     // F328
	func() any { return new(F329) },     // F329
	func() any { return new(F330) },     // F330
	func() any { return new(F331) },     // F331
	func() any { return new(F332) },     // F332
	func() any { return new(F333) },     // F333
	func() any { return new(F334) },     // F334
	func() any { return new(F335) },     // F335
	func() any { return new(F336) },     // F336
	func() any { return new(F337) },     // F337
	func() any { return new(F338) },     // F338
	func() any { return new(F339) },     // F339
	func() any { return new(F340) },     // F340
	func() any { return new(F341) },     // F341
	func() any { return new(F342) },     // F342
	func() any { return new(F343) },     // F343
	func() any { return new(F344) },     // F344
	func() any { return new(F345) },     // F345
	func() any { return new(F346) },     // F346
	func() any { return new(F347) },     // F347
	func() any { return new(F348) },     // F348
	func() any { return new(F349) },     // F349
	func() any { return new(F350) },     // F350
	func() any { return new(F351) },     // F351
	func() any { return new(F352) },     // F352
	func() any { return new(F353) },     // F353
	func() any { return new(F354) },     // F354
	func() any { return new(F355) },     // F355
	func() any { return new(F356) },     // F356
	func() any { return new(F357) },     // F357
	func() any { return new(F358) },     // F358
	func() any { return new(F359) },     // F359
	func() any { return new(F360) },     // F360
	func() any { return new(F361) },     // F361
	func() any { return new(F362) },     // F362
	func() any { return new(F363) },     // F363
	func() any { return new(F364) },     // F364
	func() any { return new(F365) },     // F365
	func() any { return new(F366) },     // F366
	func() any { return new(F367) },     // F367
	func() any { return new(F368) },     // F368
	func() any { return new(F369) },     // F369
	func() any { return new(F370) },     // F370
	func() any { return new(F371) },     // F371
	func() any { return new(F372) },     // F372
	func() any { return new(F373) },     // F373
	func() any { return new(F374) },     // F374
	func() any { return new(F375) },     // F375
	func() any { return new(F376) },     // F376
	func() any { return new(F377) },     // F377
	func() any { return new(F378) },     // F378
	func() any { return new(F379) },     // F379
	func() any { return new(F380) },     // F380
	func() any { return new(F381) },     // F381
	func() any { return new(F382) },     // F382
	func() any { return new(F383) },     // F383
	func() any { return new(F384) },     // F384
	func() any { return new(F385) },     // F385
	func() any { return new(F386) },     // F386
	func() any { return new(F387) },     // F387
	func() any { return new(F388) },     // F388
	func() any { return new(F389) },     // F389
	func() any { return new(F390) },     // F390
	func() any { return new(F391) },     // F391
	func() any { return new(F392) },     // F392
	func() any { return new(F393) },     // F393
	func() any { return new(F394) },     // F394
	func() any { return new(F395) },     // F395
	func() any { return new(F396) },     // F396
	func() any { return new(F397) },     // F397
	func() any { return new(F398) },     // F398
	func() any { return new(F399) },     // F399
	func() any { return new(F400) },     // F400
	func() any { return new(F401) },     // F401
	func() any { return new(F402) },     // F402
	func() any { return new(F403) },     // F403
	func() any { return new(F404) },     // F404
	func() any { return new(F405) },     // F405
	func() any { return new(F406) },     // F406
	func() any { return new(F407) },     // F407
	func() any { return new(F408) },     // F408
	func() any { return new(F409) },     // F409
	func() any { return new(F410) },     // F410
	func() any { return new(F411) },     // F411
	func() any { return new(F412) },     // F412
	func() any { return new(F413) },     // F413
	func() any { return new(F414) },     // F414
	func() any { return new(F415) },     // F415
	func() any { return new(F416) },     // F416
	func() any { return new(F417) },     // F417
	func() any { return new(F418) },     // F418
	func() any { return new(F419) },     // F419
	func() any { return new(F420) },     // F420
	func() any { return new(F421) },     // F421
	func() any { return new(F422) },     // F422
	func() any { return new(F423) },     // F423
	func() any { return new(F424) },     // F424
	func() any { return new(F425) },     // F425
	func() any { return new(F426) },     // F426
	func() any { return new(F427) },     // F427
	func() any { return new(F428) },     // F428
	func() any { return new(F429) },     // F429
	func() any { return new(F430) },     // F430
	func() any { return new(F431) },     // F431
	func() any { return new(F432) },     // F432
	func() any { return new(F433) },     // F433
	func() any { return new(F434) },     // F434
	func() any { return new(F435) },     // F435
	func() any { return new(F436) },     // F436
	func() any { return new(F437) },     // F437
	func() any { return new(F438) },     // F438
	func() any { return new(F439) },     // F439
	func() any { return new(F440) },     // F440
	func() any { return new(F441) },     // F441
	func() any { return new(F442) },     // F442
	func() any { return new(F443) },     // F443
	func() any { return new(F444) },     // F444
	func() any { return new(F445) },     // F445
	func() any { return new(F446) },     // F446
	func() any { return new(F447) },     // F447
	func() any { return new(F448) },     // F448
	func() any { return new(F449) },     // F449
	func() any { return new(F450) },     // F450
	func() any { return new(F451) },     // F451
	func() any { return new(F452) },     // F452
	func() any { return new(F453) },     // F453
	func() any { return new(F454) },     // F454
	func() any { return new(F455) },     // F455
	func() any { return new(F456) },     // F456
	func() any { return new(F457) },     // F457
	func() any { return new(F458) },     // F458
	func() any { return new(F459) },     // F459
	func() any { return new(F460) },     // F460
	func() any { return new(F461) },     // F461
	func() any { return new(F462) },     // F462
	func() any { return new(F463) },     // F463
	func() any { return new(F464) },     // F464
	func() any { return new(F465) },     // F465
	func() any { return new(F466) },     // F466
	func() any { return new(F467) },     // F467
	func() any { return new(F468) },     // F468
	func() any { return new(F469) },     // F469
	func() any { return new(F470) },     // F470
	func() any { return new(F471) },     // F471
	func() any { return new(F472) },     // F472
	func() any { return new(F473) },     // F473
	func() any { return new(F474) },     // F474
	func() any { return new(F475) },     // F475
	func() any { return new(F476) },     // F476
	func() any { return new(F477) },     // F477
	func() any { return new(F478) },     // F478
	func() any { return new(F479) },     // F479
	func() any { return new(F480) },     // F480
	func() any { return new(F481) },     // F481
	func() any { return new(F482) },     // F482
	func() any { return new(F483) },     // F483
	func() any { return new(F484) },     // F484
	func() any { return new(F485) },     // F485
	func() any { return new(F486) },     // F486
	func() any { return new(F487) },     // F487
	func() any { return new(F488) },     // F488
	func() any { return new(F489) },     // F489
	func() any { return new(F490) },     // F490
	func() any { return new(F491) },     // F491
	func() any { return new(F492) },     // F492
	func() any { return new(F493) },     // F493
	func() any { return new(F494) },     // F494
	func() any { return new(F495) },     // F495
	func() any { return new(F496) },     // F496
	func() any { return new(F497) },     // F497
	func() any { return new(F498) },     // F498
	func() any { return new(F499) },     // F499
}
