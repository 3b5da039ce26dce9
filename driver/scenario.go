package main

import "reflect"

// A Filing is the abstract filing of spec/Filing.tla plus the concrete
// choices (Periods, Style, Noise, Inline) that have no meaning there.
type Filing struct {
	ID       string    `json:"id"`
	Tag      string    `json:"tag"`
	Concepts []Concept `json:"concepts"`
	Roles    []Role    `json:"roles"`
	Ctx      []Ctx     `json:"ctx"`
	Facts    []Fact    `json:"facts"`
	Pre      []Link    `json:"pre"`
	Cal      []Link    `json:"cal"`
	Def      []Link    `json:"def"`
	Lab      []LabLink `json:"lab"`
	Fn       []FnLink  `json:"fn"`
	Names    []int     `json:"names"`
	Tags     []Tag     `json:"tags"`
	Periods  []string  `json:"periods"`
	Style    int       `json:"style"`
	Noise    []string  `json:"noise"`
	Inline   bool      `json:"inline"`
	Queries  []Tag     `json:"queries"`
}

type Concept struct {
	K   int    `json:"k"`
	Abs bool   `json:"abs"`
	Bal int    `json:"bal"`
	Typ string `json:"typ"`
	TD  int    `json:"td"`
}

type Role struct {
	R int `json:"r"`
	T int `json:"t"`
	F int `json:"f"`
}

type Mem struct {
	D int `json:"d"`
	M int `json:"m"`
}

type El struct {
	K  int `json:"k"`
	Up int `json:"up"`
	V  int `json:"v"`
}

type TMem struct {
	D   int  `json:"d"`
	Els []El `json:"els"`
}

type Ctx struct {
	ID    int    `json:"id"`
	E     int    `json:"e"`
	P     int    `json:"p"`
	Seg   []Mem  `json:"seg"`
	Scen  []Mem  `json:"scen"`
	Tseg  []TMem `json:"tseg"`
	Tscen []TMem `json:"tscen"`
}

type Fact struct {
	ID int  `json:"id"`
	C  int  `json:"c"`
	X  int  `json:"x"`
	N  bool `json:"n"`
	V  int  `json:"v"`
}

type Loc struct {
	L int `json:"l"`
	K int `json:"k"`
}

type Arc struct {
	A      int    `json:"a"`
	B      int    `json:"b"`
	O      int    `json:"o"`
	W      int    `json:"w"`
	T      string `json:"t"`
	Closed int    `json:"closed"`
	Usable int    `json:"usable"`
	Ce     int    `json:"ce"`
	Tr     int    `json:"tr"`
}

type Link struct {
	R    int   `json:"r"`
	F    int   `json:"f"`
	Locs []Loc `json:"locs"`
	Arcs []Arc `json:"arcs"`
}

type LabArc struct {
	A int `json:"a"`
	B int `json:"b"`
}

type Res struct {
	L    int `json:"l"`
	Role int `json:"role"`
	Lang int `json:"lang"`
	T    int `json:"t"`
}

type LabLink struct {
	F    int      `json:"f"`
	Locs []Loc    `json:"locs"`
	Arcs []LabArc `json:"arcs"`
	Res  []Res    `json:"res"`
}

type FnLoc struct {
	L int `json:"l"`
	F int `json:"f"`
}

type Note struct {
	L  int `json:"l"`
	ID int `json:"id"`
}

type FnLink struct {
	Locs  []FnLoc  `json:"locs"`
	Notes []Note   `json:"notes"`
	Arcs  []LabArc `json:"arcs"`
}

// Tag is a concept and a context that an inline document tags, or that a
// single-fact request asks for.
type Tag struct {
	K int `json:"k"`
	X int `json:"x"`
}

// solid replaces nil slices by empty ones, for the specification knows no null.
func solid(v any) {
	solidValue(reflect.ValueOf(v).Elem())
}

func solidValue(v reflect.Value) {
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			v.Set(reflect.MakeSlice(v.Type(), 0, 0))
		}
		for i := 0; i < v.Len(); i++ {
			solidValue(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			solidValue(v.Field(i))
		}
	case reflect.Pointer:
		if !v.IsNil() {
			solidValue(v.Elem())
		}
	}
}
