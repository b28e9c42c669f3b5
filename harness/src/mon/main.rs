mod coherence;
mod global;
mod intersect;
mod jobs;
mod kernel;
mod locate;
mod num;
mod polygon;
mod sweep;

#[global_allocator]
static ALLOCATOR: harness::alloc::Counting = harness::alloc::Counting;

fn props() -> Vec<harness::ctx::Prop> {
    let mut v = kernel::props();
    v.extend(locate::props());
    v.extend(intersect::props());
    v.extend(polygon::props());
    v.extend(sweep::props());
    v.extend(global::props());
    v.extend(coherence::props());
    v.sort_by_key(|p| p.id);
    v
}

fn main() {
    harness::sup::main(props)
}
