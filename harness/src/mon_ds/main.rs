//! Monitors of the containers under the algorithms, against plain models.
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

use harness::ctx::{Ctx, Hasher, Prop, Stage, R};
use harness::ensure;
use harness::rng::Rng;
use rcgal::data_structure::avl_tree::{AVLTree, AVLTreeOption};
use rcgal::data_structure::circular_doubly_linked_list::{CircularDoubleLinkedList, ListNode};
use rcgal::data_structure::priority_queue::PriorityQueue;

#[global_allocator]
static ALLOCATOR: harness::alloc::Counting = harness::alloc::Counting;

thread_local! {
    static COMPARED: Cell<u64> = const { Cell::new(0) };
    static VISITED: RefCell<Vec<i64>> = const { RefCell::new(Vec::new()) };
}

/// The identity of an element that is only there to be led past others.
const PROBE: u32 = u32::MAX;

fn compared() -> u64 {
    COMPARED.with(|c| c.get())
}

/// Ordered by the key alone; every comparison is counted.
#[derive(Clone, Copy, Debug)]
struct Item {
    key: i64,
    id: u32,
}

impl PartialEq for Item {
    fn eq(&self, o: &Item) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Item {}
impl PartialOrd for Item {
    fn partial_cmp(&self, o: &Item) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Item {
    fn cmp(&self, o: &Item) -> Ordering {
        COMPARED.with(|c| c.set(c.get() + 1));
        if (self.id == PROBE) != (o.id == PROBE) {
            VISITED.with(|v| v.borrow_mut().push(if self.id == PROBE { o.key } else { self.key }));
        }
        self.key.cmp(&o.key)
    }
}

/// Keys in an order that is hard on a tree.
struct Keys {
    kind: u64,
    range: i64,
    i: i64,
}

impl Keys {
    fn new(rng: &mut Rng) -> Keys {
        Keys { kind: rng.below(6), range: *rng.pick(&[1, 3, 10, 100, 100_000]), i: 0 }
    }
    fn name(&self) -> &'static str {
        ["random", "ascending", "descending", "from both ends", "zigzag", "in runs"][self.kind as usize]
    }
    fn next(&mut self, rng: &mut Rng) -> i64 {
        self.i += 1;
        let i = self.i;
        match self.kind {
            0 => rng.range(-self.range, self.range),
            1 => i,
            2 => -i,
            3 => if i % 2 == 0 { i } else { -i },
            4 => (1 << 20) / i * if i % 2 == 0 { 1 } else { -1 },
            _ => i / rng.range(1, 8) + rng.range(0, 1) * 1000,
        }
    }
}

/// Comparisons one descent of a balanced tree of n nodes may take, up to three a level.
fn descent(n: usize) -> u64 {
    (3.0 * 1.45 * ((n + 2) as f64).log2()).ceil() as u64 + 2
}

/// The shape of a tree without equals, seen from the nodes an element that is already
/// there is compared with on its way: at every node the two sides differ by one level at most.
fn balanced(ctx: &mut Ctx, t: &mut AVLTree<Item>, keys: &[i64], log: &[String]) -> R {
    let mut parent: BTreeMap<i64, Option<i64>> = BTreeMap::new();
    for &key in keys {
        VISITED.with(|v| v.borrow_mut().clear());
        ctx.call("AVLTree::insert", || t.insert(Item { key, id: PROBE }))?;
        let mut path: Vec<i64> = Vec::new();
        VISITED.with(|v| {
            for &k in v.borrow().iter() {
                if !path.contains(&k) {
                    path.push(k);
                }
            }
        });
        let Some(at) = path.iter().position(|k| *k == key) else {
            return Err(format!("looking for {} among {:?} does not reach it: {:?}", key, keys, log));
        };
        parent.insert(key, if at == 0 { None } else { Some(path[at - 1]) });
    }
    fn height(node: i64, children: &BTreeMap<i64, Vec<i64>>, depth: usize) -> Result<i64, String> {
        if depth > children.len() + 1 {
            return Err("its nodes form no tree".to_string());
        }
        let (mut left, mut right) = (0, 0);
        for &c in children.get(&node).map_or(&[][..], |v| v) {
            let h = height(c, children, depth + 1)?;
            if c < node { left = h.max(left) } else { right = h.max(right) }
        }
        if (left - right).abs() > 1 {
            return Err(format!("at {} the sides are {} and {} levels high", node, left, right));
        }
        Ok(left.max(right) + 1)
    }
    let mut children: BTreeMap<i64, Vec<i64>> = keys.iter().map(|k| (*k, vec![])).collect();
    let mut roots = vec![];
    for (k, p) in &parent {
        match p {
            Some(p) => children.entry(*p).or_default().push(*k),
            None => roots.push(*k),
        }
    }
    ensure!(roots.len() == usize::from(!keys.is_empty()), "the tree of {:?} has the roots {:?}: {:?}", keys, roots, log);
    for r in roots {
        let h = height(r, &children, 0).map_err(|m| format!("{}: {:?} after {:?}", m, keys, log))?;
        ctx.note_max("levels", h as u64);
    }
    ctx.judged("walked the shape");
    Ok(())
}

fn tree(ctx: &mut Ctx, rng: &mut Rng, steps: usize, deletes: bool) -> R {
    let same = rng.chance(1, 2);
    let mut t = ctx.call("AVLTree::new", || {
        AVLTree::new(if same { AVLTreeOption::SameNodeInsertRight } else { AVLTreeOption::DisableSameNode })
    })?;
    let mut model: Vec<Item> = Vec::new();
    let mut keys = Keys::new(rng);
    let mut log: Vec<String> = Vec::new();
    let mut h = Hasher::new(90 + same as u64);
    let mut worst: u64 = 0;
    let mut look = rng.usize(1, 8);
    let rounds = 100.max(steps as u64 / 2);
    let mut most = 0;
    for id in 0..steps as u32 {
        let n = model.len();
        let what = rng.below(100);
        let before = compared();
        if deletes && what < 35 {
            // Half the time a key that is there.
            let key = if n > 0 && rng.chance(3, 4) { rng.pick(&model).key } else { keys.next(rng) };
            h.add(1).add(key as u64);
            if log.len() < 60 {
                log.push(format!("delete {}", key));
            }
            ctx.call("AVLTree::delete", || t.delete(Item { key, id }))?;
            let took = compared() - before;
            ensure!(took <= 3 * descent(n) + 4, "deleting {} from {} nodes took {} comparisons: {:?}", key, n, took, log);
            match model.iter().position(|m| m.key == key) {
                Some(i) => {
                    let twins = model.iter().filter(|m| m.key == key).count();
                    model.remove(i);
                    ctx.judged(if twins > 1 { "deleted one of several" } else { "deleted" });
                }
                None => ctx.judged("deleted what was not there"),
            }
        } else if rng.below(rounds) == 0 {
            h.add(2);
            log.clear();
            ctx.call("AVLTree::clear", || t.clear())?;
            model.clear();
            ctx.judged("cleared");
        } else {
            let key = keys.next(rng);
            h.add(3).add(key as u64);
            if log.len() < 60 {
                log.push(format!("insert {}", key));
            }
            ctx.call("AVLTree::insert", || t.insert(Item { key, id }))?;
            let took = compared() - before;
            ensure!(took <= descent(n) + 2, "inserting {} into {} nodes took {} comparisons: {:?}", key, n, took, log);
            worst = worst.max(took);
            let there = model.iter().any(|m| m.key == key);
            if !there || same {
                // After those that are equal.
                let at = model.iter().position(|m| m.key > key).unwrap_or(n);
                model.insert(at, Item { key, id });
            }
            ctx.judged(match (there, same) {
                (false, _) => "inserted",
                (true, true) => "inserted beside its equal",
                (true, false) => "refused a second equal",
            });
        }
        most = most.max(model.len() as u64);
        look -= 1;
        if look == 0 || id as usize + 1 == steps {
            look = rng.usize(1, 1 + steps / 8);
            let got = ctx.call("AVLTree::mid_order_traversal", || t.mid_order_traversal())?;
            let want: Vec<i64> = model.iter().map(|m| m.key).collect();
            let keys: Vec<i64> = got.iter().map(|m| m.key).collect();
            ensure!(keys == want, "the tree holds {:?}, expected {:?}; duplicates {}; {:?}", keys, want, same, log);
            if !same {
                balanced(ctx, &mut t, &want, &log)?;
            }
            if !deletes {
                // Which of several equals a deletion takes is not said.
                let ids: Vec<u32> = got.iter().map(|m| m.id).collect();
                let want: Vec<u32> = model.iter().map(|m| m.id).collect();
                ensure!(ids == want, "equal elements come as {:?}, inserted as {:?}: {:?}", ids, want, log);
            }
        }
    }
    ctx.bucket(&format!("keys: {}", keys.name()));
    ctx.note_max("nodes", most);
    ctx.note_max("comparisons of an insertion", worst);
    ctx.nontrivial(h.0);
    ctx.sample(|| format!("{:?} ...", log));
    Ok(())
}

fn tree_mixed(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = rng.usize(1, 120);
    tree(ctx, rng, n, true)
}

fn tree_inserts(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = rng.usize(1, 120);
    tree(ctx, rng, n, false)
}

fn tree_large(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let n = rng.usize(1000, 3000);
    let deletes = rng.chance(1, 2);
    tree(ctx, rng, n, deletes)
}

/// More nodes than sixteen bits count: filled, partly emptied, filled again, emptied.
fn tree_huge(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let same = rng.chance(1, 2);
    let mut t = ctx.call("AVLTree::new", || {
        AVLTree::new(if same { AVLTreeOption::SameNodeInsertRight } else { AVLTreeOption::DisableSameNode })
    })?;
    let n = rng.usize(66_000, 80_000) as i64;
    let kind = rng.below(4);
    let spread = *rng.pick(&[n * 16, n * 1000]);
    let mut h = Hasher::new(95 + same as u64).add(n as u64).add(kind).0;
    let mut model: BTreeMap<i64, u32> = BTreeMap::new();
    let (mut size, mut most) = (0usize, 0usize);
    let mut worst = 0;
    for round in 0..2u32 {
        for i in 0..n {
            let key = match kind {
                0 => i,
                1 => -i,
                2 => if i % 2 == 0 { i } else { -i },
                _ => rng.range(-spread, spread),
            };
            h = h.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ key as u64;
            let before = compared();
            ctx.call("AVLTree::insert", || t.insert(Item { key, id: round }))?;
            let took = compared() - before;
            ensure!(took <= descent(size) + 2, "inserting {} into {} nodes took {} comparisons", key, size, took);
            worst = worst.max(took);
            let twins = model.entry(key).or_default();
            if *twins == 0 || same {
                *twins += 1;
                size += 1;
            }
        }
        most = most.max(size);
        for pass in 0..2 {
            let got = ctx.call("AVLTree::mid_order_traversal", || t.mid_order_traversal())?;
            ensure!(got.len() == size, "the tree holds {} elements, expected {}", got.len(), size);
            let want = model.iter().flat_map(|(k, n)| std::iter::repeat_n(*k, *n as usize));
            for (i, (g, w)) in got.iter().zip(want).enumerate() {
                ensure!(g.key == w, "element {} of {} is {}, expected {}", i, size, g.key, w);
            }
            if pass == 1 {
                break;
            }
            let keys: Vec<i64> = model.keys().copied().collect();
            for key in keys {
                if round == 0 && rng.chance(1, 2) {
                    continue;
                }
                while model.contains_key(&key) {
                    let before = compared();
                    ctx.call("AVLTree::delete", || t.delete(Item { key, id: 9 }))?;
                    let took = compared() - before;
                    ensure!(took <= 3 * descent(size) + 4, "deleting {} from {} nodes took {} comparisons", key, size, took);
                    size -= 1;
                    let twins = model.get_mut(&key).unwrap();
                    *twins -= 1;
                    if *twins == 0 {
                        model.remove(&key);
                    }
                }
            }
        }
    }
    ctx.judged("huge");
    ctx.note_max("nodes", most as u64);
    ctx.note_max("comparisons of an insertion", worst);
    ctx.nontrivial(h);
    Ok(())
}

// --------------------------------------------------------------------- queue

fn queue_huge(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let steps = rng.usize(75_000, 90_000);
    ctx.bucket("huge");
    queue(ctx, rng, steps, 99)
}

fn queue_histories(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let (steps, bias) = (rng.usize(1, 200), rng.range(25, 75) as u64);
    queue(ctx, rng, steps, bias)
}

fn queue_large(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let (steps, bias) = (rng.usize(2000, 9000), rng.range(60, 97) as u64);
    queue(ctx, rng, steps, bias)
}

/// A history of pushes, pops and clears; the model holds the identities by key.
fn queue(ctx: &mut Ctx, rng: &mut Rng, steps: usize, bias: u64) -> R {
    let mut q = ctx.call("PriorityQueue::new", PriorityQueue::new)?;
    let mut model: BTreeMap<i64, BTreeSet<u32>> = BTreeMap::new();
    let (mut size, mut most) = (0, 0);
    let mut keys = Keys::new(rng);
    let mut h = Hasher::new(92);
    let mut log: Vec<String> = Vec::new();
    let rounds = if steps > 20_000 { 4 * steps as u64 } else { 100.max(steps as u64 / 2) };
    let mut id = 0;
    let mut step = 0;
    // The last part empties it.
    while step < steps || size > 0 {
        step += 1;
        let draining = step > steps;
        let what = rng.below(100);
        if !draining && rng.below(rounds) == 0 {
            ctx.call("PriorityQueue::clear", || q.clear())?;
            model.clear();
            size = 0;
            log.clear();
            h.add(7);
            ctx.judged("clear");
        } else if !draining && what < bias {
            let item = Item { key: keys.next(rng), id };
            id += 1;
            h.add(item.key as u64);
            if log.len() < 80 {
                log.push(format!("push {}", item.key));
            }
            ctx.call("PriorityQueue::push", || q.push(item))?;
            model.entry(item.key).or_default().insert(item.id);
            size += 1;
            most = most.max(size);
            ctx.judged("push");
        } else {
            h.add(8);
            let got = ctx.call("PriorityQueue::pop", || q.pop())?;
            if log.len() < 80 {
                log.push(format!("pop {:?}", got));
            }
            match got {
                None => {
                    ensure!(size == 0, "nothing is popped while {} are in: {:?}", size, log);
                    ctx.judged("pop of an empty queue");
                }
                Some(g) => {
                    let greatest = model.keys().next_back().copied();
                    let there = model.get_mut(&g.key).is_some_and(|ids| ids.remove(&g.id));
                    ensure!(there, "popped {:?}, which is not among the {} in: {:?}", g, size, log);
                    ensure!(Some(g.key) == greatest, "popped {:?} while {:?} is in: {:?}", g, greatest, log);
                    if model[&g.key].is_empty() {
                        model.remove(&g.key);
                    }
                    size -= 1;
                    ctx.judged("pop");
                }
            }
        }
        let empty = ctx.call("PriorityQueue::is_empty", || q.is_empty())?;
        ensure!(empty == (size == 0), "is_empty is {} with {} inside: {:?}", empty, size, log);
    }
    ctx.note_max("elements", most);
    ctx.bucket(&format!("keys: {}", keys.name()));
    ctx.nontrivial(h.0);
    ctx.sample(|| format!("{:?} ...", log));
    Ok(())
}

// ---------------------------------------------------------------------- list

type Node = Rc<RefCell<ListNode<u32>>>;

fn ring(list: &CircularDoubleLinkedList<u32>, model: &[Node]) -> R {
    let n = model.len();
    ensure!(list.len() == n, "len is {} with {} inside", list.len(), n);
    let is = |a: &Option<Node>, b: Option<&Node>| match (a, b) {
        (Some(a), Some(b)) => Rc::ptr_eq(a, b),
        (None, None) => true,
        _ => false,
    };
    let show = |a: &Option<Node>| match a {
        Some(a) => format!("node {}", a.borrow().data),
        None => "nothing".to_string(),
    };
    ensure!(is(&list.head(), model.first()), "the head is {}", show(&list.head()));
    ensure!(is(&list.tail(), model.last()), "the tail is {}", show(&list.tail()));
    for i in 0..n {
        let node = model[i].borrow();
        ensure!(is(&node.next, Some(&model[(i + 1) % n])), "node {} is followed by {}", node.data, show(&node.next));
        ensure!(is(&node.prev, Some(&model[(i + n - 1) % n])), "node {} follows {}", node.data, show(&node.prev));
    }
    Ok(())
}

fn list_histories(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let (steps, bias) = (rng.usize(1, 100), rng.range(40, 70) as u64);
    list(ctx, rng, steps, bias)
}

fn list_large(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let (steps, bias) = (rng.usize(500, 2500), rng.range(50, 95) as u64);
    list(ctx, rng, steps, bias)
}

fn list_huge(ctx: &mut Ctx, rng: &mut Rng) -> R {
    let steps = rng.usize(68_000, 75_000);
    ctx.bucket("huge");
    list(ctx, rng, steps, 99)
}

/// The history is drawn; many nodes hold the same value, as their identity alone decides.
fn list(ctx: &mut Ctx, rng: &mut Rng, steps: usize, bias: u64) -> R {
    let few = rng.chance(1, 3);
    let mut l = ctx.call("CircularDoubleLinkedList::new", CircularDoubleLinkedList::new)?;
    let mut model: Vec<Node> = Vec::new();
    let mut log: Vec<(char, usize)> = Vec::with_capacity(300);
    let mut data: Vec<u32> = Vec::new();
    let mut gone = Vec::new();
    let mut h = Hasher::new(93);
    let mut most = 0;
    for step in 0..steps as u32 {
        let id = if few { step % 3 } else { step };
        let n = model.len();
        let what = rng.below(100);
        if n == 0 || what < bias {
            let i = match rng.below(4) {
                0 => 0,
                1 => n.saturating_sub(1),
                _ => rng.usize(0, n.saturating_sub(1)),
            };
            log.push(('i', i));
            let after = model.get(i).cloned();
            let node = ctx.call("CircularDoubleLinkedList::insert", || l.insert(after, id))?;
            ensure!(node.borrow().data == id, "inserting {} gives a node of {}", id, node.borrow().data);
            ctx.judged(if n == 0 { "inserted into an empty list" } else if i + 1 == n { "inserted after the tail" } else { "inserted within" });
            let at = if n == 0 { 0 } else { i + 1 };
            model.insert(at, node);
            data.insert(at, id);
        } else if what == 99 {
            log.push(('n', 0));
            ctx.call("CircularDoubleLinkedList::delete", || l.delete(None))?;
            ctx.judged("deleted nothing");
        } else {
            let i = match rng.below(4) {
                0 => 0,
                1 => n - 1,
                _ => rng.usize(0, n - 1),
            };
            log.push(('d', i));
            let node = model.remove(i);
            data.remove(i);
            gone.push(Rc::downgrade(&node));
            ctx.call("CircularDoubleLinkedList::delete", || l.delete(Some(node.clone())))?;
            ctx.judged(if n == 1 { "deleted the last one" } else if i == 0 { "deleted the head" } else if i + 1 == n { "deleted the tail" } else { "deleted within" });
        }
        let (c, i) = log[log.len() - 1];
        h.add(c as u64).add(i as u64);
        most = most.max(model.len() as u64);
        // The whole ring of a long list every so often.
        if model.len() > 150 && step as usize + 1 < steps && step as usize % 32.max(model.len() / 4) != 0 {
            continue;
        }
        ring(&l, &model).map_err(|m| format!("{} after {:?}", m, log))?;
        let now: Vec<u32> = model.iter().map(|m| m.borrow().data).collect();
        ensure!(now == data, "the nodes hold {:?}, expected {:?}, after {:?}", now, data, log);
    }
    // Dropped, it leaves no node behind, and breaks up the ring of a node still held.
    let weak: Vec<_> = model.iter().map(Rc::downgrade).collect();
    let held = if rng.chance(1, 4) && !model.is_empty() { Some(rng.usize(0, model.len() - 1)) } else { None };
    let kept = held.map(|i| model[i].clone());
    drop(model);
    ctx.call("CircularDoubleLinkedList::drop", || drop(l))?;
    let left = weak.iter().enumerate().filter(|(i, w)| Some(*i) != held && w.strong_count() > 0).count();
    ensure!(left == 0, "{} of {} nodes are left when the list is dropped, after {:?}", left, weak.len(), log);
    if let Some(node) = kept {
        ensure!(Rc::strong_count(&node) == 1, "a node of the dropped list is still linked to, after {:?}", log);
        ctx.bucket("a node outlives the list");
    }
    let left = gone.iter().filter(|w| w.strong_count() > 0).count();
    ensure!(left == 0, "{} of {} deleted nodes are left, after {:?}", left, gone.len(), log);
    ctx.judged("dropped");
    ctx.note_max("nodes", most);
    ctx.nontrivial(h.0);
    ctx.sample(|| format!("{:?}", &log[..log.len().min(60)]));
    Ok(())
}

fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P35",
            stages: vec![
                Stage { name: "mixed", cases: 20_000, run: tree_mixed },
                Stage { name: "insertions", cases: 10_000, run: tree_inserts },
                Stage { name: "large", cases: 100, run: tree_large },
                Stage { name: "huge", cases: 1, run: tree_huge },
            ],
            rule: "histories of 1 to 3000, some to 160,000, insertions, deletions and clears, with and without duplicates, of random, ascending, descending, alternating and repeating keys, against a sorted list; comparisons are counted in the element, and from the nodes a search passes the shape of the tree is put together; a distinct case is one history",
            assumptions: vec!["which of several equal elements a deletion takes is not judged", "a descent of a balanced tree of n nodes takes at most 1.45 log2(n + 2) levels of two or three comparisons"],
            required: vec![
                "inserted", "inserted beside its equal", "refused a second equal", "deleted", "deleted one of several", "deleted what was not there", "cleared", "walked the shape", "huge",
                "keys: ascending", "keys: descending", "keys: from both ends",
            ],
            silent: false,
        },
        Prop {
            id: "P36",
            stages: vec![
                Stage { name: "histories", cases: 30_000, run: queue_histories },
                Stage { name: "large", cases: 200, run: queue_large },
                Stage { name: "huge", cases: 1, run: queue_huge },
            ],
            rule: "histories of 1 to 200, some to 9000 and 90,000, pushes, pops and clears, then emptied; each element carries an identity; a distinct case is one history",
            assumptions: vec!["which of several equal elements comes first is not judged"],
            required: vec!["push", "pop", "pop of an empty queue", "clear", "huge"],
            silent: false,
        },
        Prop {
            id: "P37",
            stages: vec![
                Stage { name: "histories", cases: 30_000, run: list_histories },
                Stage { name: "large", cases: 200, run: list_large },
                Stage { name: "huge", cases: 1, run: list_huge },
            ],
            rule: "histories of 1 to 100, some to 2500 and 75,000, insertions after, and deletions of, the head, the tail and other nodes; after each step both directions of the whole ring, its ends and its length are compared with a plain sequence of node identities, and after it is dropped no node is left; a distinct case is one history",
            assumptions: vec!["nodes inserted after and deleted are nodes of the list; insertion after nothing happens into an empty list only"],
            required: vec!["inserted into an empty list", "inserted after the tail", "inserted within", "deleted the last one", "deleted the head", "deleted the tail", "deleted within", "deleted nothing", "dropped", "huge"],
            silent: false,
        },
    ]
}

fn main() {
    harness::sup::main(props)
}
