// Package qrt is what the generated query types refer to: handlers, hooks and
// a registry of the query types.
package qrt

import (
	"context"

	"github.com/frk/gosql"
)

type (
	Str  string
	Int  int
	Bool bool
	Doc  struct {
		A int
		B string
		C []int
		D map[string]int
	}
)

// DBTX is a custom type of the method's argument.
type DBTX interface {
	gosql.Conn
}

// EH is an error handler.
type EH struct{ F func(error) error }

func (h EH) HandleError(err error) error {
	if h.F == nil {
		return err
	}
	return h.F(err)
}

// EIH is an error info handler.
type EIH struct{ F func(*gosql.ErrorInfo) error }

func (h *EIH) HandleErrorInfo(info *gosql.ErrorInfo) error {
	if h == nil || h.F == nil {
		return info.Error
	}
	return h.F(info)
}

// Other ways of having the methods of a handler.
type (
	IEH  interface{ gosql.ErrorHandler }
	PEH  struct{ EH }
	IEIH interface{ gosql.ErrorInfoHandler }
	PEIH struct{ *EIH }
)

// Filter is a gosql.Filter.
type Filter struct {
	F func(pos int) (string, []interface{})
}

func (f *Filter) ToSQL(pos int) (string, []interface{}) { return f.F(pos) }

// OnAfterScan is called by the AfterScan methods of the records.
var OnAfterScan func(rec interface{})

func AfterScan(rec interface{}) {
	if OnAfterScan != nil {
		OnAfterScan(rec)
	}
}

// ConvInt converts the values of filter expressions for columns of type Int.
func ConvInt(v any) (any, error) {
	if n, ok := v.(int64); ok {
		return n + 1, nil
	}
	return v, nil
}

// Entry is a query type.
type Entry struct {
	Key       string
	New       func() interface{}
	Exec      func(q interface{}, ctx context.Context, c gosql.Conn) error
	NewFilter func() interface{} // of the filter type
	SetIter   func(q interface{}, f func(interface{}) error)
}

var Entries = map[string]*Entry{}

func Register(e *Entry) { Entries[e.Key] = e }
