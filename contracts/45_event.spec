package ogdl

// the recorded events are well formed: one level per item, levels within the announced maximum
macro wf(e) = len(e.items) == len(e.levels) && 0 <= e.current && e.current <= e.max && (forall i int :: {mem(e.levels)[i]} off(e.levels) <= i && i < off(e.levels) + len(e.levels) ==> 0 <= mem(e.levels)[i] && mem(e.levels)[i] <= e.max)

macro added(e, v, lv) = len(e.items) == len(old(e.items)) + 1 && len(e.levels) == len(old(e.levels)) + 1 && e.items[len(old(e.items))] == v && e.levels[len(old(e.levels))] == lv && (forall i int :: {mem(e.items)[i]} off(e.items) <= i && i < off(e.items) + len(old(e.items)) ==> mem(e.items)[i] == old(mem(e.items))[i - off(e.items) + old(off(e.items))]) && (forall i int :: {mem(e.levels)[i]} off(e.levels) <= i && i < off(e.levels) + len(old(e.levels)) ==> mem(e.levels)[i] == old(mem(e.levels))[i - off(e.levels) + old(off(e.levels))])

// the lists stay where they are or move to new memory
macro ownlists(e) = (base(e.items) == old(base(e.items)) || fresh(e.items)) && (base(e.levels) == old(base(e.levels)) || fresh(e.levels))

macro sameEvents(e) = e.items == old(e.items) && e.levels == old(e.levels)

func (*SimpleEventHandler).Add(e, s)
  props C07 C21
  requires e != nil && wf(e)
  modifies SimpleEventHandler.items[e], SimpleEventHandler.levels[e], mem(interface{})[base(e.items)], mem(int)[base(e.levels)]
  ensures added(e, box(s, string), e.current)
  ensures ownlists(e)
  ensures wf(e)

func (*SimpleEventHandler).AddBytes(e, b)
  props C07 C21
  requires e != nil && wf(e)
  modifies SimpleEventHandler.items[e], SimpleEventHandler.levels[e], mem(interface{})[base(e.items)], mem(int)[base(e.levels)]
  ensures added(e, box(b, []byte), e.current)
  ensures ownlists(e)
  ensures wf(e)

func (*SimpleEventHandler).AddItf(e, i)
  props C07 C21
  requires e != nil && wf(e)
  modifies SimpleEventHandler.items[e], SimpleEventHandler.levels[e], mem(interface{})[base(e.items)], mem(int)[base(e.levels)]
  ensures added(e, i, e.current)
  ensures ownlists(e)
  ensures wf(e)

func (*SimpleEventHandler).AddAt(e, s, lv)
  props C07 C21
  requires e != nil && wf(e) && 0 <= lv
  modifies SimpleEventHandler.items[e], SimpleEventHandler.levels[e], SimpleEventHandler.max[e], mem(interface{})[base(e.items)], mem(int)[base(e.levels)]
  ensures added(e, box(s, string), lv)
  ensures ownlists(e)
  ensures wf(e) && e.max == (lv > old(e.max) ? lv : old(e.max))

func (*SimpleEventHandler).AddBytesAt(e, b, lv)
  props C07 C21
  requires e != nil && wf(e) && 0 <= lv
  modifies SimpleEventHandler.items[e], SimpleEventHandler.levels[e], SimpleEventHandler.max[e], mem(interface{})[base(e.items)], mem(int)[base(e.levels)]
  ensures added(e, box(b, []byte), lv)
  ensures ownlists(e)
  ensures wf(e) && e.max == (lv > old(e.max) ? lv : old(e.max))

func (*SimpleEventHandler).Delete(e)
  props C07 C21
  requires e != nil && wf(e) && len(e.items) > 0
  modifies SimpleEventHandler.items[e], SimpleEventHandler.levels[e]
  ensures len(e.items) == len(old(e.items)) - 1 && len(e.levels) == len(e.items)
  ensures base(e.items) == old(base(e.items)) && base(e.levels) == old(base(e.levels))
  ensures forall i int :: {e.items[i]} 0 <= i && i < len(e.items) ==> e.items[i] == old(e.items[i])
  ensures forall i int :: {e.levels[i]} 0 <= i && i < len(e.items) ==> e.levels[i] == old(e.levels[i])
  ensures wf(e)

func (*SimpleEventHandler).Level(e) (r)
  props C07 C21
  requires e != nil
  ensures r == e.current

func (*SimpleEventHandler).SetLevel(e, l)
  props C07 C21
  requires e != nil && wf(e) && 0 <= l
  modifies SimpleEventHandler.current[e], SimpleEventHandler.max[e]
  ensures e.current == l && e.max == (l > old(e.max) ? l : old(e.max))
  ensures wf(e)

func (*SimpleEventHandler).Inc(e)
  props C07 C21
  requires e != nil && wf(e) && e.current < 4503599627370496
  modifies SimpleEventHandler.current[e], SimpleEventHandler.max[e]
  ensures e.current == old(e.current) + 1 && e.max == (e.current > old(e.max) ? e.current : old(e.max))
  ensures wf(e)

func (*SimpleEventHandler).Dec(e)
  props C07 C21
  requires e != nil && wf(e)
  modifies SimpleEventHandler.current[e]
  ensures e.current == (old(e.current) > 0 ? old(e.current) - 1 : 0)
  ensures wf(e)

// index of the last event before i at level lv: -1 is the root (level -1), -2 none
spec func lastat(e *SimpleEventHandler, lv int, i int) int reads SimpleEventHandler.levels, mem(int)
  = i <= 0 ? (lv == -1 ? -1 : -2) : e.levels[i-1] == lv ? i - 1 : lastat(e, lv, i - 1)
// the event under which event i is placed
spec func parof(e *SimpleEventHandler, i int) int reads SimpleEventHandler.levels, mem(int) = lastat(e, e.levels[i] - 1, i)
// number of events before i that are placed under event p
spec func nkids(e *SimpleEventHandler, p int, i int) int reads SimpleEventHandler.levels, mem(int)
  = i <= 0 ? 0 : nkids(e, p, i - 1) + (parof(e, i - 1) == p ? 1 : 0)

// the node made for event i (-1: the root)
ghost evnode int -> *Graph

// r is the tree of the recorded events: one new node per event, with its content, under the
// event it belongs to, in the order of the events
macro treeof(e, r) = fresh(r) && len(r.Out) == nkids(e, -1, len(e.items)) && (forall j int :: {evnode(j)} 0 <= j && j < len(e.items) ==> fresh(evnode(j)) && evnode(j) != r && evnode(j).This == e.items[j] && len(evnode(j).Out) == nkids(e, j, len(e.items))) && (forall j int, k int :: {evnode(j), evnode(k)} 0 <= j && j < k && k < len(e.items) ==> evnode(j) != evnode(k)) && (forall j int :: {parof(e, j)} 0 <= j && j < len(e.items) && parof(e, j) >= -1 ==> evnode(parof(e, j)).Out[nkids(e, parof(e, j), j)] == evnode(j))

func (*SimpleEventHandler).Tree(e) (r)
  props C07 C21
  requires e != nil && wf(e) && e.max < 4503599627370496
  modifies evnode
  set evnode[-1] := r
  ensures treeof(e, r)
  loop
    var i index
    var g []*Graph
    set evnode[i] := g[e.levels[i] + 1]
    invariant 0 <= i && i <= len(e.items)
    invariant len(g) == e.max + 2 && fresh(g)
    invariant lastat(e, -1, i) == -1
    invariant g[0] == entry(g[0])
    invariant fresh(g[0]) && len(g[0].Out) == nkids(e, -1, i)
    invariant forall lv int :: {lastat(e, lv, i)} 0 <= lv && lv <= e.max ==> lastat(e, lv, i) >= -2 && lastat(e, lv, i) < i && lastat(e, lv, i) != -1
    invariant forall lv int :: {lastat(e, lv, i)} 0 <= lv && lv <= e.max ==> (lastat(e, lv, i) == -2 ? g[lv+1] == nil : g[lv+1] == evnode(lastat(e, lv, i)))
    invariant forall j int :: {evnode(j)} 0 <= j && j < i ==> fresh(evnode(j)) && alloc(evnode(j)) && evnode(j) != g[0] && evnode(j).This == e.items[j] && len(evnode(j).Out) == nkids(e, j, i)
    invariant forall j int, k int :: {evnode(j), evnode(k)} 0 <= j && j < k && k < i ==> evnode(j) != evnode(k)
    invariant forall j int :: {parof(e, j)} 0 <= j && j < i ==> -2 <= parof(e, j) && parof(e, j) < j
    invariant forall j int :: {parof(e, j)} 0 <= j && j < i ==> 0 <= nkids(e, parof(e, j), j) && nkids(e, parof(e, j), j) < nkids(e, parof(e, j), i)
    invariant forall j int :: {parof(e, j)} 0 <= j && j < i && parof(e, j) >= 0 ==> evnode(parof(e, j)).Out[nkids(e, parof(e, j), j)] == evnode(j)
    invariant forall j int :: {parof(e, j)} 0 <= j && j < i && parof(e, j) == -1 ==> g[0].Out[nkids(e, -1, j)] == evnode(j)
    invariant forall p int :: {nkids(e, p, i)} nkids(e, p, i) >= 0 && (p >= i ==> nkids(e, p, i) == 0)
    invariant forall k int :: {mem(g)[k]} off(g) <= k && k < off(g) + len(g) ==> mem(g)[k] == nil || fresh(mem(g)[k])
    invariant forall l int :: {g[l]} 0 <= l && l < len(g) ==> g[l] == nil || fresh(g[l])
    invariant forall k int :: {mem(g)[k]} off(g) <= k && k < off(g) + len(g) && mem(g)[k] != nil ==> base(mem(g)[k].Out) == 0 || base(mem(g)[k].Out) >= entry(next())
