#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,
      state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
C='src/sized_chunk/mod.rs';CI='src/sized_chunk/iter.rs';CP='src/sized_chunk/refpool.rs'
R='src/ring_buffer/mod.rs';RI='src/ring_buffer/iter.rs';RX='src/ring_buffer/index.rs';RS='src/ring_buffer/slice.rs';RP='src/ring_buffer/refpool.rs'
S='src/sparse_chunk/mod.rs';SI='src/sparse_chunk/iter.rs';SP='src/sparse_chunk/refpool.rs'
I='src/inline_array/mod.rs';II='src/inline_array/iter.rs';AR='src/arbitrary.rs'

p('C01','Chunk behaves as an ideal bounded list',
 'For every history of Chunk operations (pushes and pops at both ends, insert, insert_from, remove, set, indexed writes, drop_left, drop_right, split_off, clear, extend, the constructors, and the operations moving items between two chunks), every returned value and the visible contents, length, emptiness and fullness are exactly those of an ideal list of capacity N that undergoes the same operations. This is independent of where the items currently sit inside the storage, i.e. of how the contents were reached, and of the element type and capacity.',
 ['histories','inputs','programs'],'all histories of operations on one or two chunks, all internal placements, all capacities and element types',
 'The unit tests run a handful of fixed sequences and the proptest/fuzz targets (not part of the suite that runs) sample one capacity; the shifting branches depend on the combination of placement, index, amount and capacity.',
 [C],[('shift direction and compaction arithmetic of push/insert/insert_from/remove/append/drain_from_*',C)],
 [('left,right','half open window of initialised slots',C)],['return values, as_slice, len, is_empty, is_full, index'])
p('C02','RingBuffer behaves as an ideal bounded list',
 'For every history of RingBuffer operations (pushes and pops at both ends, insert, insert_from, remove, set, get, indexing, drop_left, drop_right, split_off, append, drain_from_front/back, clear, extend, the constructors), every returned value and the visible contents, length, emptiness and fullness are exactly those of an ideal list of capacity N that undergoes the same operations. This is independent of where the first item currently sits in the ring and of whether the contents, the source or the target of a transfer wrap around the end of the storage.',
 ['histories','inputs','programs'],'all histories on one or two ring buffers, all origins and wrap positions, all capacities and element types',
 'Unit tests almost never wrap around; wrapping of source and target at the same time, and shifts across the seam, depend on origin, length, index and capacity together.',
 [R,RX],[('RawIndex modular arithmetic',RX),('copy_from segment splitting, insert/remove shifting loops',R)],
 [('origin,length','first slot and number of items',R)],['return values, iter, index, get, len, is_empty, is_full'])
p('C03','SparseChunk behaves as a bounded map from index to value',
 'For every history of SparseChunk operations (insert, remove, pop, get, get_mut, indexing, construction from one, two or a stream of optional values, draining), the results and the visible set of (index, value) entries, their order, the length, first index, index list, entries list and fullness are exactly those of an ideal map from indices below N to values. Inserting returns the previous value at that index, removing returns the removed value, pop returns the value with the lowest index, and absent or out of range lookups yield nothing.',
 ['histories','inputs'],'all histories, all subsets of occupied indices, all supported capacities (including capacities around the machine word sizes used by the bitmap)',
 'The tests touch a few indices of one or two capacities; occupied sets are exponentially many and the boundary of each bitmap representation is separate.',
 [S,SI],[('bitmap set/clear paired with slot read/write',S)],[('map,data','occupied indices and their slots',S)],['insert/remove/pop/get results, entries, indices, len'])
p('C04','InlineArray behaves as an ideal bounded vector',
 'For every history of InlineArray operations (push, pop, insert, remove, split_off, clear, extend, collect, indexed writes, draining) the returned values, contents, length, emptiness and fullness are exactly those of an ideal vector bounded by the capacity. This holds for every element type and host type, whether the length is stored before or after the elements, for zero capacity arrays and for zero sized elements.',
 ['histories','inputs','programs'],'all histories, element types and host types',
 'Tests exercise a few pushes for a few type pairs; the storage address of every element depends on the size and alignment of both type parameters.',
 [I,II],[('header/element placement and memmove in insert/remove/split_off',I)],[('length header','number of initialised elements',I)],['return values, slice contents, len, is_empty, is_full'])
p('C05','Impossible requests are refused and change nothing',
 'An operation whose index, count or amount fits within the current contents and the capacity succeeds; one that would exceed the capacity, reach outside the contents, pop from an empty Chunk, or take more items than a source has, is refused in the documented way: by a panic, or by returning nothing where the method returns an Option. A refused operation leaves the contents of every container involved unchanged (extend keeps the items accepted before the container became full) and this is identical with and without debug assertions, up to the largest possible index or count.',
 ['inputs','histories','configurations'],'all states and all argument values including the extremes, all container types, debug and release builds',
 'The suite has only a few should_panic tests, run only with debug assertions, and never looks at the container after the refusal.',
 [C,R,S,I],[('bounds and capacity checks at the start of each operation',C),('bounds and capacity checks',R),('bounds checks',S),('bounds and capacity checks',I)],
 [],['panic or None, followed by the contents'])
p('C06','Every element is owned exactly once',
 'Across every history of operations on any of the containers, each element put in is either still visible in exactly one container, has been handed back to the caller exactly once, or has been dropped exactly once; discarding, replacing, refusing, moving between containers, partially consumed iterators and dropping the container included. Nothing is leaked, nothing is dropped twice and no element is duplicated, for every element type. A draining or owning iterator that is forgotten instead of dropped may lose the elements it had, but never makes one visible or dropped twice.',
 ['histories','inputs','programs'],'all histories in which user code does not panic, all placements, all element types with a destructor',
 'A lost or doubly dropped element is invisible to value comparisons; the drop counting tests cover one short history per container.',
 [C,CI,R,RI,S,SI,I,II],[('raw reads/writes paired with window/bitmap/length updates',C),('Drop implementations',R),('option/drain iterators by value',SI),('drain and split_off',I)],
 [],['number of drops of each element, identity of visible and returned elements'])
p('C07','A panic in user code never corrupts a container',
 'If user supplied code (cloning, comparing or dropping an element, or an iterator handed in) panics in the middle of any operation, then no element is dropped twice, no element that was already dropped or handed out is visible or dropped again later, containers that were only being read are unchanged, and every container involved can still be used and dropped normally afterwards. Elements may be leaked in that case.',
 ['fault_sequences','histories'],'every operation, every state, every single point at which user code can panic',
 'Only a few panic points (iterator too short/too long, one clone) are tested; the set of panic points times states is enumerated nowhere.',
 [C,R,S,I],[('window moved before or only after the elements are really there',C),('length zeroed during insert_from, grown one by one in clone',R),('bitmap copy in drop, insert based clone',S),('length header updated around drop_in_place',I)],
 [],['ledger of drops, contents after catching the panic, later operations'])
p('C08','Iterators that misreport their length never cause corruption',
 'Whatever an iterator passed to extend, insert_from, collect or a constructor claims about its length (too short, too long, inconsistent between calls, or huge), the operation either completes or panics without writing outside the container, without exposing uninitialised or already moved elements, and without dropping any element twice. Afterwards the container holds only elements that it held before or that the iterator yielded, each at most once and in order, and remains usable.',
 ['inputs','fault_sequences'],'every claimed length against every actual length, at every index and state',
 'Tests cover one off by one example each for Chunk and RingBuffer.',
 [C,R,I,S],[('bounded take and yield counting while the window is zeroed',C),('bounded take and count assertion',R)],[],['contents, guard memory around the container, ledger of drops'])
p('C09','Iterators yield each element once, in order, from both ends',
 'For every iterator the containers hand out (by reference, by mutable reference, by value, draining, and the optional-slot and entry iterators of SparseChunk), any interleaving of taking from the front and, where supported, from the back yields each element exactly once in the right order and then nothing forever. Reported sizes are right at every step (exact for exact-size iterators, a valid bound otherwise); items not taken from a drain of Chunk, RingBuffer or InlineArray remain in the container in order, and writes through mutable iterators reach exactly the yielded element.',
 ['inputs','histories'],'all states and placements and every finite script of next, next_back, nth, size_hint and consuming calls',
 'Tests consume whole iterators from one end.',
 [CI,RI,SI,II,R],[('front/back cursors and remaining counters',RI),('drain on top of pop',CI),('bitmap iteration',SI)],[],['sequence of yielded items and size hints'])
p('C10','Ring buffer slices are exact windows with enforced bounds',
 'A Slice or SliceMut of a RingBuffer, however it was made (any range form, nested slicing, splitting), shows exactly the items of its range in order through length, get, indexing, iteration, first/last, searching, comparison and copying out. Reading or writing outside its own range is refused even if the position exists in the buffer, the two halves of a split never reach the same item, and writes through a SliceMut change exactly the addressed items of the buffer.',
 ['inputs','histories'],'all ring states and wrap positions, all ranges, all nestings of slice and split_at',
 'Slices are almost untested (one or two ranges, never wrapped).',
 [RS,R],[('range arithmetic relative to the parent range',RS)],[('range','logical index range within the buffer',RS)],['values read and written through slices'])
p('C11','Equality, ordering, hashing and printing depend only on contents',
 'Comparing any two containers, or a container with a slice, array, vector, ring slice or map of a supported type, gives exactly the result of comparing their logical contents element by element, independent of placement, history and of which side is which. Values of the same type that compare equal hash equally, whatever their placement, as do a RingBuffer and its slices; Chunk and InlineArray hash and compare like the slice they can be borrowed as, orderings are lexicographic, and Debug shows the contents in order.',
 ['inputs','programs'],'all pairs of contents up to the bound, all placements and all supported pairs of types, including values not equal to themselves',
 'Tests compare a few equal containers and almost no unequal ones.',
 [C,R,RS,S,I],[('PartialEq/Ord/Hash/Debug implementations',C),('same',R),('same',RS),('same',S),('same',I)],[],['results of ==, <, cmp, hash, {:?}'])
p('C12','Clones are equal and independent',
 'Cloning a container (also into a memory pool, and creating a default in a pool) gives a container equal to the original holding fresh clones of its elements in the same positions, leaves the original untouched, clones every element exactly once, and from then on changes to one never affect the other.',
 ['histories','inputs'],'all states and placements of all four containers, followed by any operations on either copy',
 'One clone of one container state is tested per type.',
 [C,CP,R,RP,S,SP,I],[('Clone implementations',C),('PoolClone implementations',CP),('Clone',R),('PoolClone',RP),('Clone',S),('PoolClone',SP),('Clone',I)],[],['contents of both copies after later operations'])
p('C13','Byte chunks and rings are FIFO pipes of bounded size',
 'For a Chunk or RingBuffer of bytes, io::Write accepts exactly as many bytes as there is room for, appends them in order and reports that number, and io::Read removes and returns exactly the oldest bytes, as many as asked for and available. No history of reads and writes mixed with other operations loses, reorders or invents a byte or panics.',
 ['histories','inputs'],'all buffer states and wrap positions, all request sizes including 0 and more than the capacity',
 'One write and one read on a fresh buffer are tested.',
 [C,R],[('io::Write/io::Read implementations',C),('copy_from_slice wrap handling',R)],[],['byte counts and byte values'])
p('C14','InlineArray storage always fits, is aligned and never overlaps',
 'For every element type and host type, InlineArray has the size of the host type (given a host at least as aligned and as large as the length word), holds exactly as many elements as fit next to one length word (unlimited for zero sized elements, none if the element needs more alignment than the array has), and every element reference is properly aligned, inside the array and disjoint from the length and from other elements. Filling it to capacity therefore never changes its length, other elements or neighbouring memory.',
 ['programs','configurations'],'all pairs of element and host layouts (sizes and alignments)',
 'Tests cover a handful of type pairs.',
 [I],[('capacity(), HEADER_FIRST/ELEMENT_SKIP/HEADER_SKIP',I)],[],['CAPACITY, size_of, element addresses, contents after filling'])
p('C15','Moving items between containers conserves them and their order',
 'Operations that transfer items between two containers (append, drain_from, drain_from_front, drain_from_back, from_front, from_back, split_off, and turning an InlineArray into a Chunk by value or by mutable reference) move exactly the requested items: the concatenation of source and target contents in their natural order is the same before and after. The emptied or shortened source stays fully usable; a transfer that does not fit is refused without changing either side (a source that was passed by value is then dropped with its items).',
 ['histories','inputs'],'all pairs of states and placements of source and target, all counts, all capacities of the two sides',
 'Tests transfer between freshly built containers only.',
 [C,R,I],[('force_copy_to/copy_from with window updates on both sides',C),('copy_from',R),('From<InlineArray>',C)],[],['contents of both containers'])
p('C16','Sorted insertion and searching are correct',
 'Inserting with insert_ordered into sorted contents keeps them sorted and adds exactly the new value. Searching, sorting, swapping and membership operations offered by RingBuffer and its slices give the same answer as on the equivalent plain list, wherever the contents sit in the ring.',
 ['inputs','histories'],'all sorted contents with duplicates up to the bound, all values, all placements',
 'The proptest state machines sample a few; unit tests have one example.',
 [C,R,RS],[('binary search followed by insert',C),('binary search on a slice followed by insert',R)],[],['contents, search results'])
p('C17','Arbitrary generation is total, bounded and faithful',
 'Generating a container from any byte string succeeds, never exceeds the capacity, and yields exactly the elements the underlying generator produces from those bytes, truncated to the capacity. Both entry points (arbitrary and arbitrary_take_rest) can produce every length from empty to full, an element that cannot be generated makes the whole fail without leaking the elements before it, and the size hint encloses the number of bytes that are used.',
 ['inputs'],'all byte strings up to the bound, all capacities',
 'There is no test of these implementations.',
 [AR],[('take(CAPACITY) and collect',AR)],[],['generated contents'])
p('C18','Threads get at elements only as the element type permits',
 'No container, iterator or slice lets a safe program move an element to a thread its type must not be moved to (not Send), or reach an element from two threads at once that must not be shared (not Sync). Containers and owning iterators of elements that may be moved or shared can themselves be moved or shared; threads that only read a container at the same time all see its contents, and a container or iterator taken to another thread keeps its elements.',
 ['inputs','schedules'],'all containers, iterators and slices, element types with each combination of Send and Sync, all histories of moving and sharing between two threads',
 'Whether a type is Send or Sync is decided by the compiler from all of its fields; the tests run on one thread and with element types that are both.',
 [C,CI,R,RI,RS,S,SI,I,II],[('PhantomData for the element, storage as MaybeUninit of the host',I),('raw pointer in the mutable iterator',RI),('storage as MaybeUninit',R)],[],['which of the types are Send and Sync, contents read by each thread'])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
