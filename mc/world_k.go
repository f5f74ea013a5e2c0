package main

import (
	"reflect"

	"github.com/mjarkk/yarql"
)

// A schema with every scalar in every place: as field, pointer, list, ID, result and argument

// ZKQ is the root of the schema
type ZKQ struct {
	FInt int
	PInt *int
	LInt []int
	QInt []*int
	AInt [2]int
	CInt func(args struct {
		A int
		P *int
		L []int
	}) (int, error)
	FInt8 int8
	PInt8 *int8
	LInt8 []int8
	QInt8 []*int8
	AInt8 [2]int8
	CInt8 func(args struct {
		A int8
		P *int8
		L []int8
	}) (int8, error)
	FInt16 int16
	PInt16 *int16
	LInt16 []int16
	QInt16 []*int16
	AInt16 [2]int16
	CInt16 func(args struct {
		A int16
		P *int16
		L []int16
	}) (int16, error)
	FInt32 int32
	PInt32 *int32
	LInt32 []int32
	QInt32 []*int32
	AInt32 [2]int32
	CInt32 func(args struct {
		A int32
		P *int32
		L []int32
	}) (int32, error)
	FInt64 int64
	PInt64 *int64
	LInt64 []int64
	QInt64 []*int64
	AInt64 [2]int64
	CInt64 func(args struct {
		A int64
		P *int64
		L []int64
	}) (int64, error)
	FUint uint
	PUint *uint
	LUint []uint
	QUint []*uint
	AUint [2]uint
	CUint func(args struct {
		A uint
		P *uint
		L []uint
	}) (uint, error)
	FUint8 uint8
	PUint8 *uint8
	LUint8 []uint8
	QUint8 []*uint8
	AUint8 [2]uint8
	CUint8 func(args struct {
		A uint8
		P *uint8
		L []uint8
	}) (uint8, error)
	FUint16 uint16
	PUint16 *uint16
	LUint16 []uint16
	QUint16 []*uint16
	AUint16 [2]uint16
	CUint16 func(args struct {
		A uint16
		P *uint16
		L []uint16
	}) (uint16, error)
	FUint32 uint32
	PUint32 *uint32
	LUint32 []uint32
	QUint32 []*uint32
	AUint32 [2]uint32
	CUint32 func(args struct {
		A uint32
		P *uint32
		L []uint32
	}) (uint32, error)
	FUint64 uint64
	PUint64 *uint64
	LUint64 []uint64
	QUint64 []*uint64
	AUint64 [2]uint64
	CUint64 func(args struct {
		A uint64
		P *uint64
		L []uint64
	}) (uint64, error)
	FFloat32 float32
	PFloat32 *float32
	LFloat32 []float32
	QFloat32 []*float32
	AFloat32 [2]float32
	CFloat32 func(args struct {
		A float32
		P *float32
		L []float32
	}) (float32, error)
	FFloat64 float64
	PFloat64 *float64
	LFloat64 []float64
	QFloat64 []*float64
	AFloat64 [2]float64
	CFloat64 func(args struct {
		A float64
		P *float64
		L []float64
	}) (float64, error)
	FString string
	PString *string
	LString []string
	QString []*string
	AString [2]string
	CString func(args struct {
		A string
		P *string
		L []string
	}) (string, error)
	FBool bool
	PBool *bool
	LBool []bool
	QBool []*bool
	ABool [2]bool
	CBool func(args struct {
		A bool
		P *bool
		L []bool
	}) (bool, error)
	IInt int  `gq:",id"`
	JInt *int `gq:",id"`
	KInt func(args struct {
		A int  `gq:",id"`
		P *int `gq:",id"`
	}) (int, yarql.AttrIsID)
	IInt8 int8  `gq:",id"`
	JInt8 *int8 `gq:",id"`
	KInt8 func(args struct {
		A int8  `gq:",id"`
		P *int8 `gq:",id"`
	}) (int8, yarql.AttrIsID)
	IInt16 int16  `gq:",id"`
	JInt16 *int16 `gq:",id"`
	KInt16 func(args struct {
		A int16  `gq:",id"`
		P *int16 `gq:",id"`
	}) (int16, yarql.AttrIsID)
	IInt32 int32  `gq:",id"`
	JInt32 *int32 `gq:",id"`
	KInt32 func(args struct {
		A int32  `gq:",id"`
		P *int32 `gq:",id"`
	}) (int32, yarql.AttrIsID)
	IInt64 int64  `gq:",id"`
	JInt64 *int64 `gq:",id"`
	KInt64 func(args struct {
		A int64  `gq:",id"`
		P *int64 `gq:",id"`
	}) (int64, yarql.AttrIsID)
	IUint uint  `gq:",id"`
	JUint *uint `gq:",id"`
	KUint func(args struct {
		A uint  `gq:",id"`
		P *uint `gq:",id"`
	}) (uint, yarql.AttrIsID)
	IUint8 uint8  `gq:",id"`
	JUint8 *uint8 `gq:",id"`
	KUint8 func(args struct {
		A uint8  `gq:",id"`
		P *uint8 `gq:",id"`
	}) (uint8, yarql.AttrIsID)
	IUint16 uint16  `gq:",id"`
	JUint16 *uint16 `gq:",id"`
	KUint16 func(args struct {
		A uint16  `gq:",id"`
		P *uint16 `gq:",id"`
	}) (uint16, yarql.AttrIsID)
	IUint32 uint32  `gq:",id"`
	JUint32 *uint32 `gq:",id"`
	KUint32 func(args struct {
		A uint32  `gq:",id"`
		P *uint32 `gq:",id"`
	}) (uint32, yarql.AttrIsID)
	IUint64 uint64  `gq:",id"`
	JUint64 *uint64 `gq:",id"`
	KUint64 func(args struct {
		A uint64  `gq:",id"`
		P *uint64 `gq:",id"`
	}) (uint64, yarql.AttrIsID)
	IString string  `gq:",id"`
	JString *string `gq:",id"`
	KString func(args struct {
		A string  `gq:",id"`
		P *string `gq:",id"`
	}) (string, yarql.AttrIsID)
	In func(args struct{ In ZKIn }) *bool
}

// ZKIn has every scalar
type ZKIn struct {
	FInt     int
	PInt     *int
	LInt     []int
	FInt8    int8
	PInt8    *int8
	LInt8    []int8
	FInt16   int16
	PInt16   *int16
	LInt16   []int16
	FInt32   int32
	PInt32   *int32
	LInt32   []int32
	FInt64   int64
	PInt64   *int64
	LInt64   []int64
	FUint    uint
	PUint    *uint
	LUint    []uint
	FUint8   uint8
	PUint8   *uint8
	LUint8   []uint8
	FUint16  uint16
	PUint16  *uint16
	LUint16  []uint16
	FUint32  uint32
	PUint32  *uint32
	LUint32  []uint32
	FUint64  uint64
	PUint64  *uint64
	LUint64  []uint64
	FFloat32 float32
	PFloat32 *float32
	LFloat32 []float32
	FFloat64 float64
	PFloat64 *float64
	LFloat64 []float64
	FString  string
	PString  *string
	LString  []string
	FBool    bool
	PBool    *bool
	LBool    []bool
	IInt     int    `gq:",id"`
	IInt8    int8   `gq:",id"`
	IInt16   int16  `gq:",id"`
	IInt32   int32  `gq:",id"`
	IInt64   int64  `gq:",id"`
	IUint    uint   `gq:",id"`
	IUint8   uint8  `gq:",id"`
	IUint16  uint16 `gq:",id"`
	IUint32  uint32 `gq:",id"`
	IUint64  uint64 `gq:",id"`
	IString  string `gq:",id"`
}

// ZKM is the mutation root
type ZKM struct{}

// ResolveScalar has a method per place too
func (ZKM) ResolveScalar(args struct{ In *ZKIn }) uint64 { return 1 }

// ResolveSmall has a small number
func (ZKM) ResolveSmall(args struct{ A uint16 }) *int8 { return nil }

func newKSchema() *yarql.Schema {
	s := yarql.NewSchema()
	q := ZKQ{}
	// every function answers with the zero value or, for the pointers, with a value
	v := reflect.ValueOf(&q).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch f.Kind() {
		case reflect.Func:
			t := f.Type()
			f.Set(reflect.MakeFunc(t, func([]reflect.Value) []reflect.Value {
				out := []reflect.Value{}
				for i := 0; i < t.NumOut(); i++ {
					out = append(out, reflect.Zero(t.Out(i)))
				}
				return out
			}))
		case reflect.Ptr:
			f.Set(reflect.New(f.Type().Elem()))
		case reflect.Slice:
			f.Set(reflect.MakeSlice(f.Type(), 2, 2))
		}
	}
	must(s.Parse(q, ZKM{}, nil))
	return s
}
