HEAD='''
package index

import (
	"iter"
	"testing"
	"time"

	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
	"github.com/stretchr/testify/assert"
)

var _ = time.Now
var _ iter.Seq[Datum]
var _ = sys.DbIdent

const demoStr, demoInt, demoInst, demoRef ID = 0x100000, 0x100001, 0x100002, 0x100003

func demoTypes() map[ID]ID {
	return map[ID]ID{demoStr: sys.AttrTypeString, demoInt: sys.AttrTypeInt, demoInst: sys.AttrTypeInst, demoRef: sys.AttrTypeRef}
}
'''
SEEDS=[
 dict(id='ix-first-int-pivot',property='C16',pkg='internal/index',
  edits=[dict(file='internal/index/index.go',old='TypedDatum[int64]{A: datum.A, V: math.MinInt64}',new='TypedDatum[int64]{A: datum.A}',nth=3)],
  needs='an inst attribute all of whose values, or the first of them, precede 1970, looked up with First by attribute alone',
  breaks='First(A) of an inst attribute starts at the epoch and misses earlier instants',
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	idx := NewCompositeIndex(8, AVEIndex, demoTypes())
	old := Datum{E: 0x100010, A: demoInst, V: Inst(time.Date(1950, 1, 1, 0, 0, 0, 0, time.UTC)), T: 1}
	idx.Insert(old)
	match, ok := idx.First(A, Datum{A: demoInst})
	assert.True(t, ok)
	assert.Equal(t, old, match)
}
'''),
 dict(id='ix-count-inst',property='C16',pkg='internal/index',
  edits=[dict(file='internal/index/index.go',old='idx.ints.Count(CompareAE[int64]',new='idx.ints.Count(CompareA[int64]',nth=1)],
  needs='an inst attribute of several entities, counted by attribute and entity where entities follow in the order',
  breaks='Count(AE) of inst attributes counts the datums of the later entities too',
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	idx := NewCompositeIndex(8, AEVIndex, demoTypes())
	for e := ID(0x100010); e < 0x100014; e++ {
		idx.Insert(Datum{E: e, A: demoInst, V: Inst(time.UnixMilli(int64(e))), T: 1})
	}
	assert.Equal(t, 1, idx.Count(AE, Datum{E: 0x100011, A: demoInst}))
}
'''),
 dict(id='ix-insert-overwrites',property='C18',pkg='internal/index',
  edits=[dict(file='internal/index/typed.go',old='extant = index.Find(datum)\n\tif !extant {\n\t\t// We would use this directly for efficiency, but this overwrites an extant value,\n\t\t// while we choose to retain it, preferring the earliest T value introducing a datum.\n\t\tindex.tree.ReplaceOrInsert(datum)\n\t}',new='_, extant = index.tree.ReplaceOrInsert(datum)')],
  needs='inserting a datum which the index holds, in a later transaction, and reading its T',
  breaks='reasserting a datum overwrites the transaction which first asserted it',
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	idx := NewCompositeIndex(8, EAVIndex, demoTypes())
	idx.Insert(Datum{E: 0x100010, A: demoStr, V: String("x"), T: 1})
	assert.True(t, idx.Insert(Datum{E: 0x100010, A: demoStr, V: String("x"), T: 2}))
	match, ok := idx.First(EA, Datum{E: 0x100010, A: demoStr})
	assert.True(t, ok)
	assert.Equal(t, ID(1), match.T)
}
'''),
 dict(id='ix-merge-leak',property='C21',pkg='internal/index',
  edits=[dict(file='internal/index/scan.go',old='next, stop := iter.Pull(seq)\n\t\t\tdefer stop()\n',new='next, _ := iter.Pull(seq)\n')],
  needs='a consumer which stops before the end of a merged sequence',
  breaks='the pulled sequences of an abandoned merge are never stopped, so their producers never finish',
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	finished := 0
	mk := func(e ID) iter.Seq[Datum] {
		return func(yield func(Datum) bool) {
			defer func() { finished++ }()
			for i := ID(0); i < 10; i++ {
				if !yield(Datum{E: e, A: i}) {
					return
				}
			}
		}
	}
	for range mergeEAV(mk(1), mk(2), mk(3)) {
		break
	}
	assert.Equal(t, 3, finished)
}
'''),
 dict(id='ix-map-ignores-stop',property='C21',pkg='internal/index',
  edits=[dict(file='internal/index/index.go',old='if !yield(f(datum)) {\n\t\t\t\treturn\n\t\t\t}',new='yield(f(datum))')],
  needs='a consumer which stops before the end of an entity scan that holds several int or ref stored datums',
  breaks='the mapped sequence goes on yielding after its consumer has stopped',
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	yielded := 0
	seq := mapSeq(func(yield func(Datum) bool) {
		for i := ID(1); i < 5; i++ {
			if !yield(Datum{E: i}) {
				return
			}
		}
	}, func(d Datum) Datum { return d })
	seq(func(Datum) bool { yielded++; return false })
	assert.Equal(t, 1, yielded)
}
'''),
 dict(id='ix-delete-inst-units',property='C17',pkg='internal/index',
  edits=[dict(file='internal/index/index.go',old='extant = idx.ints.Delete(TypedDatum[int64]{E: datum.E, A: datum.A, V: time.Time(datum.V.(Inst)).UnixMilli()})',new='extant = idx.ints.Delete(TypedDatum[int64]{E: datum.E, A: datum.A, V: time.Time(datum.V.(Inst)).Unix() * 1000})')],
  needs='deleting an inst datum whose time has a fraction of a second',
  breaks='Delete encodes instants in whole seconds, so datums with fractional instants are never removed',
  demo=HEAD+'''
func TestDemo(t *testing.T) {
	idx := NewCompositeIndex(8, EAVIndex, demoTypes())
	d := Datum{E: 0x100010, A: demoInst, V: Inst(time.UnixMilli(1234567).UTC()), T: 1}
	idx.Insert(d)
	assert.True(t, idx.Delete(d))
	assert.False(t, idx.Find(d))
}
'''),
]
