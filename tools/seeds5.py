def t(pkg, body, imports=()):
    imps = "".join('\t"%s"\n' % i for i in ["testing", *imports])
    return '\npackage %s_test\n\nimport (\n%s\n\t"github.com/zijiren233/gencontainer/%s"\n)\n\n%s' % (pkg, imps, pkg, body)
SEEDS = [
dict(id="rwmap-deepequal", prop="C19", pkg="rwmap", edits=[("rwmap/rwmap.go", """	for ok {
		p := e.p.Load()
		if p == nil || uintptr(unsafe.Pointer(p)) == expungedUintptr || !reflect.ValueOf(*p).Equal(reflect.ValueOf(old)) {""", """	for ok {
		p := e.p.Load()
		if p == nil || uintptr(unsafe.Pointer(p)) == expungedUintptr || !reflect.DeepEqual(*p, old) {""")],
 needs="values that are pointers, two of them to equal contents", breaks="CompareAndDelete deletes a value that is not the one given",
 demo=t("rwmap", '''
func TestSeededDemo(t *testing.T) {
	var m rwmap.RWMap[int, *int]
	a, b := new(int), new(int)
	m.Store(1, a)
	if m.CompareAndDelete(1, b) {
		t.Fatal("deleted another pointer's value")
	}
	if !m.CompareAndDelete(1, a) {
		t.Fatal("not deleted")
	}
}
''')),
dict(id="cache-kind-equal", prop="C23", pkg="synccache", edits=[("synccache/synccache.go", """	if e, ok := sc.Load(key); ok && reflect.ValueOf(oldValue).Equal(reflect.ValueOf(e.value)) {""", """	if e, ok := sc.Load(key); ok && reflect.DeepEqual(oldValue, e.value) {""")],
 needs="values that are pointers, two of them to equal contents", breaks="CompareValueAndDelete deletes an entry whose value is not the one given",
 demo=t("synccache", '''
func TestSeededDemo(t *testing.T) {
	c := synccache.NewSyncCache[int, *int](time.Second)
	defer c.Close()
	a, b := new(int), new(int)
	c.Store(1, a, time.Hour)
	if c.CompareValueAndDelete(1, b) {
		t.Fatal("deleted another pointer's entry")
	}
	if !c.CompareValueAndDelete(1, a) {
		t.Fatal("not deleted")
	}
}
''', ("time",))),
dict(id="tree-draw-rows", prop="C17", pkg="tree", edits=[("tree/tree.go", """		val[level] = append(val[level], n)
	}
	val = n.Left.traversalBFS(val, level+1)""", """		val[level] = append(val[level], n)
	}
	if !n.HasLeft() {
		return n.Right.traversalBFS(val, len(val))
	}
	val = n.Left.traversalBFS(val, level+1)""")],
 needs="a node with only a right child, to the right of a deeper subtree", breaks="TraversalBFS visits that child after the deeper nodes, out of level order",
 demo=t("tree", '''
func TestSeededDemo(t *testing.T) {
	n := make([]*tree.Node[int], 7)
	for i := range n {
		n[i] = tree.NewNode(i)
	}
	n[0].SetLeft(n[1])
	n[0].SetRight(n[2])
	n[1].SetLeft(n[3])
	n[3].SetLeft(n[5])
	n[2].SetRight(n[4])
	for i, x := range n[0].TraversalBFS() {
		if x != n[i] {
			t.Fatal("out of level order at", i)
		}
	}
}
''')),
]
