// Package qspec describes generated queries to the simulator: what a query
// type declares, written down by the generator of the query types and not
// taken from the code that gosql generates for them.
package qspec

import "fmt"

// A Leaf is a field of a record that belongs to a column.
type Leaf struct {
	Path     []string // field names from the record
	Col      string
	CT       string // column type
	GoT      string
	Nullable bool // the column
	NoInsert bool
	NoUpdate bool
	NoRead   bool
	Default  bool   // tag option default: the column is always written as DEFAULT
	Coalesce string // text that stands for NULL, if UseCo
	UseCo    bool
	NullZero bool // the zero value is written as NULL
}

// A Rec is a record type (possibly an anonymous struct of a query type).
type Rec struct {
	Leaves    []*Leaf
	AfterScan bool
}

// An Out is a field that records are read from or delivered to.
type Out struct {
	Field string
	Rec   string // key in Spec.Recs
	Form  string // one, slice, iter, iface, dir (directive), count, exists
	Ptr   bool   // records are pointers
}

// A Cond is a part of a where struct.
type Cond struct {
	Or     bool   // joined with OR (AND otherwise) to its predecessor
	Kind   string // field, between, in, any, fixed, nest
	Field  string
	L      string // SQL before the value(s)
	R      string // SQL after the value
	CT     string
	GoT    string
	Not    bool
	X, Y   string // between: field names, or
	XS, YS string // between: SQL of the bounds that are columns
	SQL    string // fixed
	Sub    []*Cond
}

type Conflict struct {
	Target string // SQL of the conflict target
	Update []string
}

// A FilterType is a generated filter type.
type FilterType struct {
	Name   string
	V2     bool
	TS     string // SQL of the text search column
	Fields []*FilterField
}

// A FilterField is a field of the relation of a filter type.
type FilterField struct {
	Method   string
	Key      string // "" if it has none
	Col      string
	CT       string
	GoT      string
	Nullable bool
	Conv     bool // the values of filter expressions are converted by qrt.ConvInt
}

type Query struct {
	Pkg, Name    string
	Kind         string // insert update select delete count exists notexists
	Table, Alias string
	Rel          *Out
	Result       *Out
	Return       []string // columns, nil if nothing is returned
	Where        []*Cond
	WhereField   string
	All          bool
	Filter       string // field name
	FT           *FilterType
	Join         string // SQL of the from clause besides the relation
	Order        string // SQL
	TotalOrder   bool
	LimitField   string
	LimitDef     int
	LimitDir     int
	OffsetField  string
	OffsetDef    int
	OffsetDir    int
	Default      []string // columns; "*" for all
	Force        []string
	Conflict     *Conflict
	RowsAffected string // field name
	Handler      string // "", err, info
	HandlerField string
	CtxField     string
	CtxArg       bool
	Method       string
	Override     string
	File         string
}

// Sig names the features of the query that matter to its behaviour.
func (q *Query) Sig() string {
	s := q.Kind
	if q.Rel != nil && q.Kind != "count" && q.Kind != "exists" && q.Kind != "notexists" {
		s += " " + q.Rel.Form
		if q.Rel.Ptr {
			s += "*"
		}
	}
	if q.Return != nil {
		s += ", Return"
	}
	if q.Result != nil {
		s += ", Result " + q.Result.Form
		if q.Result.Ptr {
			s += "*"
		}
	}
	if q.RowsAffected != "" {
		s += ", RowsAffected"
	}
	switch {
	case q.Where != nil:
		s += ", Where"
	case q.Filter != "":
		s += ", Filter"
	case q.All:
		s += ", All"
	}
	if q.Join != "" {
		s += ", Join"
	}
	if q.Conflict != nil {
		if q.Conflict.Update == nil {
			s += ", OnConflict Ignore"
		} else {
			s += ", OnConflict Update"
		}
	}
	if q.Default != nil {
		s += ", Default"
	}
	if q.Handler != "" {
		s += ", handler " + q.Handler
	}
	return s
}

func (q *Query) Key() string { return q.Pkg + "." + q.Name }

func (q *Query) Ident() string {
	if q.Alias != "" {
		return q.Alias
	}
	return q.Table
}

// Qual qualifies a column of the target relation.
func (q *Query) Qual(col string) string { return fmt.Sprintf(`%s."%s"`, q.Ident(), col) }

// Out returns where records are delivered to (nil if nothing is).
func (q *Query) Out() *Out {
	switch {
	case q.Kind == "count" || q.Kind == "exists" || q.Kind == "notexists" || q.Kind == "select":
		return q.Rel
	case q.Result != nil:
		return q.Result
	case q.Return != nil:
		return q.Rel
	}
	return nil
}

type Spec struct {
	Recs    map[string]*Rec
	Queries []*Query
	Tables  map[string]*Table
}

type Table struct {
	Name   string
	Schema string
	Cols   []Col
	PK     []string
}

// FullName is the name with the schema.
func (t *Table) FullName() string {
	if t.Schema != "" {
		return t.Schema + "." + t.Name
	}
	return t.Name
}

type Col struct {
	Name, CT string
	Nullable bool
	Default  bool // has a default
}

func (t *Table) Col(name string) *Col {
	for i := range t.Cols {
		if t.Cols[i].Name == name {
			return &t.Cols[i]
		}
	}
	return nil
}

func Contains(l []string, s string) bool {
	for _, x := range l {
		if x == s || x == "*" {
			return true
		}
	}
	return false
}
