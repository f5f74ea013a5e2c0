// Package other has types with the same names as types of the main package
package other

// GO is called like a type of the main package
type GO struct{ Other int }

// GIn is called like a type of the main package
type GIn struct{ Other string }

// Color is called like an enum of the main package
type Color uint8

// Dup is called like an interface of the main package
type Dup struct{ X int }

// Plain has a unique name
type Plain struct{ P string }

// Enums called like scalars of the schema
type (
	String  string
	Int     int
	Boolean uint8
	ID      string
	Float   int64
	Time    int
	File    uint16
)

// GRen is called like a type of the main package that is renamed
type GRen struct{ OtherRen string }

// GFace is called like an interface of the main package
type GFace interface{ ResolveLabel() string }

// GI1 is called like a type that implements GFace
type GI1 struct{ OtherOwn string }

// ResolveLabel implements GFace
func (GI1) ResolveLabel() string { return "other" }

// Local has a name that a type of the main package is renamed to
type Local struct{ L int }

// IfA has the methods of the interfaces of the main package
type IfA struct{ A string }

// ResolveLabel is part of the interfaces
func (IfA) ResolveLabel() string { return "other a" }

// DirectiveModifier is called like the type of yarql
type DirectiveModifier struct{ Skip bool }


// Types called like the types of yarql and of the standard library that have a meaning
type (
	// Ctx is no context
	Ctx struct{ X int }
	// AttrIsID is no mark
	AttrIsID uint8
	// FileHeader is no file
	FileHeader struct{ Filename string }
	// Date is a time by another name
	Date struct{ Wall uint64 }
)
