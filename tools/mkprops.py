#!/usr/bin/env python3
"""Source of properties.jsonl (python3 tools/mkprops.py > properties.jsonl)."""
import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

p("C01","Last write wins, in every storage mode",
"For any sequence of Set, Get, Delete and Purge calls made one after another on one map (string keys, non-nil values), Get returns exactly the value of the latest Set of that key that no later Delete or Purge of the key followed, and reports absence when there is none. A call on one key never changes what is observed for another key. This holds in all storage modes (heap items, UsePool, UseEmbeddedPool), bucket modes and bucket capacities.",
["histories","configurations"],"every sequential history of point operations over any key set, in every storage mode, bucket mode and bucket capacity >= 1",
"The tests insert many keys once and read some back: hardly any update, and no history that mixes deletes, purges and re-insertions around splits and pool growth in each mode.",
["map.go","map_embedded.go","pool2.go","bucket.go","sample_hmap_entry.go"],
[("lookup then update or insert","map.go: set, _set, add2, _loadItem"),("search","map.go: _searchBybucket, map_embedded.go: bsearchBybucket"),("marking","map.go: delete, purgeInEmbedded")],
[("item list","one linked list of all items, ordered by reversed hash","map.go head/tail"),("bucket tree","index into the item list","map.go buckets, bucket.go downLevels")],
["Map.Set","Map.Get","Map.Delete","Map.Purge"])

p("C02","Growing and splitting the index is invisible for any hash distribution",
"However many keys are stored and however their hashes are distributed (uniform, sharing a long prefix, adjacent, exactly on an internal bucket boundary, zero, or all ones), every stored key stays retrievable with its latest value and is enumerated exactly once at every size. Internal bucket splits and pool growth never lose, duplicate, reorder or change an entry.",
["inputs","histories","configurations"],"every multiset of 64-bit hash values (including boundary values), every insertion order and every bucket capacity >= 1",
"Tests use sequentially numbered strings, whose hashes are uniform: deep levels, boundary-equal hashes and repeated splitting of one bucket are never produced.",
["map.go","map_embedded.go","bucket.go","pool2.go","util.go"],
[("bucket split (halving a reversed-hash range)","map.go: makeBucket, makeBucket2"),("radix tree descent","map.go: _findBucket, bucketFromPool; bucket.go: largestDown"),("pool growth","pool2.go: _expand; map_embedded.go: expand, insertToPool, _split; util.go: PoolCap")],
[("bucket boundary","reversed hash at which a bucket starts","bucket.reverse")],
["Map.Set","Map.StoreItem","Map.GetByHash","Map.RangeItem"])

p("C03","Enumeration is ordered, complete and visits each live key exactly once",
"On a map nobody is modifying, Range and RangeItem call the function once for every live key, with its current value, and for nothing else, in ascending order of the bit-reversed key hash. When the function returns false no further call is made. Walking the items from First with Next (or from Last with Prev) meets the same live items in the same (or the opposite) order.",
["histories","inputs"],"every map state reachable by Set, StoreItem, Delete and Purge; every stop position",
"Tests only count entries of a freshly filled map; order, stop, deleted entries and the backward walk after splits are not examined.",
["map.go","map_embedded.go","maphead.go","item.go","sample_hmap_entry.go"],
[("ordered insertion","map.go: add2; map_embedded.go: insertToPool"),("enumeration","map.go: rangeItem, Range, RangeItem, First, Last"),("skipping of index entries and deleted items","maphead.go: IsIgnored")],
[("item list","ordered by reversed hash, dummies start buckets","map.go head/tail")],
["Map.Range","Map.RangeItem","Map.First","Map.Last"])

p("C04","Delete and Purge remove exactly the named key",
"Delete and Purge return true exactly when the key was live, and afterwards the key is absent from every way of reading the map (Get, GetByHash, LoadItem, LoadItemByHash, Range, RangeItem) until it is set again, which makes it live with the new value only. Every other key keeps its value, whatever happened to the storage of the removed one.",
["histories","configurations"],"every history of inserts, deletes, purges and re-inserts in every storage mode",
"One test purges a few keys once; repeated removal and re-insertion, removal of the first/last entry of a pool, and removal before and after a split are not reached.",
["map.go","map_embedded.go","maphead.go","sample_hmap_entry.go","item.go"],
[("deletion mark","maphead.go: mapIsDeleted; sample_hmap_entry.go, item.go: Delete"),("removal in embedded pools","map.go: purgeInEmbedded; map_embedded.go: shrinkLen"),("reuse of a removed slot","map_embedded.go: bsearchFromFreeList, getWithFn")],
None,["Map.Delete","Map.Purge","Map.Get","Map.Range"])

p("C05","Len is the number of live keys",
"Whenever no operation is in progress, Len equals the number of keys that Get would find, after any history of inserts, updates, deletes, purges, failed deletes and re-inserts, sequential or concurrent.",
["histories","schedules","configurations"],"every history, sequential or concurrent, observed at quiescence, in every storage mode",
"Tests compare Len only after pure insertion.",
["map.go"],
[("length counter","map.go: Len, AddLen, _set, delete, purgeInEmbedded")],
[("len","counter of live keys","map.go Map.len")],["Map.Len"])

p("C06","Keys with equal hashes stay distinct keys",
"Two different keys whose 64-bit hashes are equal but whose conflict values differ are independent: each is stored, read, updated, deleted and enumerated on its own, in any number and any order, also next to bucket boundaries and across splits.",
["inputs","histories"],"every assignment of equal hashes to keys that have different conflict values; every history over them",
"Tests never produce two keys with the same 64-bit hash.",
["map.go","maphead.go","map_embedded.go"],
[("conflict comparison among neighbours of equal hash","map.go: sameHashEntry, _get, getWithBucket")],
[("conflict","second hash of the key","maphead.go")],
["Map.StoreItem","Map.GetByHash","Map.LoadItemByHash"])

p("C07","All access paths agree",
"For every key and every map state, Get, GetByHash (with the key's KeyToHash pair), LoadItem, LoadItemByHash, SearchKey (up to keys of equal hash), the enumerations and the printed list of DumpEntry agree on presence and value, and string and byte-slice forms of a key name the same entry, for Delete, Purge and LoadItem too. The item which LoadItem, RangeItem or a walk returns carries the hash pair of its key (KeyInHmap, ConflictInHamp). StoreItem of an item is equivalent to Set of its key and value (insert or update), and setting the value of an item just loaded is equivalent to Set of its key.",
["histories","inputs","configurations"],"every history mixing the key API and the item API, all supported key representations, storage modes and item types",
"Tests use one access path per map and never mix them.",
["map.go","item.go","sample_hmap_entry.go","hashfn.go"],
[("hash based access","map.go: GetByHash, LoadItem, LoadItemByHash, _get, getWithBucket"),("item storage","map.go: StoreItem"),("hashing","hashfn.go: KeyToHash, MemHash")],
None,["Map.Get","Map.GetByHash","Map.LoadItem","Map.LoadItemByHash","Map.StoreItem","Map.SearchKey","Map.DumpEntry","KeyToHash"])

p("C08","Configuration never changes results",
"The same sequence of operations gives the same results (values, presence, return values, lengths, enumerated contents and order of differently hashed keys) on maps that differ only in their options: any bucket search mode, any bucket capacity (MaxPefBucket >= 1), and any storage mode chosen at creation. Changing the search mode or the capacity of a map later (Options) changes no result either.",
["configurations","histories"],"all pairs of configurations, all histories",
"Each test or benchmark runs one configuration alone and never compares results between them.",
["map.go","map_embedded.go","pool2.go"],
[("search variants","map.go: searchBucket4Key4, searchBucket4update, _searchBybucket, nearUint64"),("options","map.go: BucketMode, MaxPefBucket, UsePool, UseEmbeddedPool, ItemFn")],
None,["New","Map.Options"])

p("C09","Operations on a key are linearizable",
"When goroutines call Set, Get, GetByHash, LoadItem, StoreItem, Delete and Purge concurrently on one map without any locking of their own, the results for each key are those of some sequential order of the calls on that key which respects real time: a Get never misses a completed Set, never returns a value that was not written, and at most one of several concurrent Deletes of one live key returns true.",
["schedules","histories","configurations"],"every interleaving of any number of goroutines, in every storage mode",
"The concurrent tests let goroutines write separate keys and look afterwards at counts; no result observed during the run is examined and only a few schedules occur.",
["map.go","map_embedded.go","pool2.go","bucket.go"],
[("operation lock","map.go: opMu"),("pool locks","bucket.go: muPool; pool2.go: mu")],
None,["Map.Set","Map.Get","Map.Delete","Map.Purge","Map.StoreItem","Map.LoadItem"])

p("C10","Concurrent updates leave a complete and well formed map",
"After any concurrent phase has ended, the map holds exactly one entry for each key that the completed operations leave live, every such key is found by Get and met exactly once, in order, by Range and by the First/Next walk, and Len is their number. In particular no insert is lost or doubled because another key was inserted, updated, deleted or caused a split at the same time.",
["schedules","histories","configurations"],"every interleaving of concurrent inserts, updates and removals of any keys, including ones that fall into the same bucket and force splits or pool growth",
"The tests check a lower bound on few schedules; lost or doubled entries in rare interleavings of insertion and split are not detected.",
["map.go","map_embedded.go","pool2.go","bucket.go"],
[("operation lock","map.go: opMu"),("insertion and split","map.go: _set, add2, makeBucket, makeBucket2"),("pool growth","pool2.go: _expand, map_embedded.go: expand")],
None,["Map.Set","Map.Get","Map.Range","Map.Len"])

p("C11","Range is safe and exact for untouched keys while others modify the map",
"A Range (in every storage mode), or a RangeItem over heap-allocated items, running while other goroutines modify the map visits no key twice, visits keys in order, visits every key that is live during the whole call, never visits a key that is absent during the whole call, and each key/value pair it reports was current at some moment during the call. The function passed to it may itself call any method of the map, and later calls of the function still follow these rules.",
["schedules","histories"],"every interleaving of enumerations with updates, every callback behaviour",
"No test enumerates while the map is modified, or modifies it from the callback.",
["map.go"],
[("snapshot under the read lock","map.go: Range, RangeItem, rangeItem")],
None,["Map.Range","Map.RangeItem"])

p("C12","Every operation completes without panic",
"Every call with a supported key and a non-nil value returns: no operation panics, deadlocks or runs forever, whatever the map holds, whatever other goroutines are doing, and when called from inside a Range callback. The map stays usable after a function passed to Range or RangeItem has panicked (and the caller has recovered). Operations on an empty map and the methods that print the map are included.",
["histories","schedules","inputs","configurations"],"every state, schedule and supported argument",
"Tests reach a few states and schedules; a hang or panic in one particular split, pool growth, purge or lock order is not reached.",
["map.go","map_embedded.go","pool2.go","bucket.go","rmap/rmap.go"],
[("retry loops","map.go: set, loadItem, bucketFromPool; map_embedded.go: getWithFn; pool2.go: Get"),("locks","map.go: opMu; bucket.go: muPool; rmap/rmap.go")],
None,["every public operation"])

p("C13","Stored entries survive garbage collection",
"An entry that is in the map keeps its key and value however often the garbage collector runs and however much memory is recycled in between, even if the program holds no other reference to the item, key or value; this holds in every storage mode and for items stored with StoreItem.",
["histories","schedules","configurations"],"every placement of garbage collections in every history, all storage modes",
"Items are linked by address arithmetic that the collector does not see; tests rarely collect and the freed memory is seldom reused within their short runs.",
["map.go","pool2.go","map_embedded.go","sample_hmap_entry.go"],
[("references kept for the collector","map.go: retain, retained; pool2.go: items; map_embedded.go: CopyDataFrom")],
[("retained","items of the heap mode","map.go Map.retained")],
["Map.Get","Map.Range"])

p("C14","Maps are independent of each other",
"Operations on one map never change the results, contents or progress of another map in the same process, whatever options each has and even when the maps are used at the same time by different goroutines.",
["histories","schedules","configurations"],"every pair (or more) of maps with any options, every interleaving of their operations",
"Tests use one map at a time; the package keeps process-wide variables (search options, traversal modes, counters).",
["map.go","bucket.go","pool2.go","map_embedded.go"],
[("per call search options","map.go: newSearchOpt"),("process-wide state","map.go: madeBucket, Failreverse; elist_head and list_head traversal modes")],
None,["New","every public operation"])

p("C15","Values are returned exactly as stored",
"Get, LoadItem and Range return the very value that was set: same dynamic type, same content and, for pointers, maps, slices, channels and functions, the same referent. The values stored successively under one key may have any types, in any order.",
["inputs","histories"],"every non-nil value of any dynamic type, every sequence of types under one key, every storage mode",
"Tests store one value type per map and compare a few of them.",
["sample_hmap_entry.go","item.go","map.go"],
[("value holder","sample_hmap_entry.go: SetValue, Value, sampleValue")],
None,["Map.Set","Map.Get","Map.Range"])

p("C16","rmap behaves as a map",
"For any sequence of Set, Get and Delete on an rmap, Get returns exactly the value of the latest Set of the key with no Delete after it, and absence otherwise; Delete returns true exactly when the key was present; Len is the number of present keys. Internal promotion of entries from the write side to the read side is invisible.",
["histories"],"every sequential history over any keys, with any interleaving of misses that triggers promotion at any point",
"The rmap test sets and reads keys once; updates and deletes after promotion, missing keys and Len are not looked at.",
["rmap/rmap.go"],
[("read side / write side","rmap/rmap.go: read, dirty, amended"),("promotion after misses","rmap/rmap.go: missLocked, storeReadFromDirty")],
[("read.m","promoted entries; nil item = deleted","rmap/rmap.go readMap")],
["RMap.Set","RMap.Get","RMap.Delete","RMap.Len"])

p("C17","rmap operations are linearizable",
"When goroutines use one rmap concurrently, the results for each key are those of some sequential order of the calls on it which respects real time, and when all have finished Len is the number of present keys. No call panics or blocks forever.",
["schedules","histories"],"every interleaving of Set, Get, Delete by any number of goroutines, including with promotion in between",
"The test runs few schedules and does not examine results obtained during the concurrent phase.",
["rmap/rmap.go"],
[("lock and atomic read map","rmap/rmap.go: baseMap.RWMutex, read, Get2, Set2, Delete")],
None,["RMap.Set","RMap.Get","RMap.Delete","RMap.Len"])

p("C18","Storage reuse never mixes entries",
"When storage of removed entries is reused, or pools grow, move or split, each live key keeps storage of its own: setting one key (by Set, StoreItem or through a freshly loaded item) never changes another key, a removed value never reappears under any key, and an update is never lost to an outdated copy of the entry.",
["histories","configurations"],"every history of insertion, removal, re-insertion and update over pools of any fill level and capacity",
"Reuse needs removal and re-insertion between neighbours in hash order, and growth at exact capacities; the tests do neither systematically.",
["map_embedded.go","pool2.go","map.go"],
[("slot reuse","map_embedded.go: bsearchFromFreeList, getWithFn, shrinkLen"),("moving items","map_embedded.go: insertToPool, expand, _split; pool2.go: _expand")],
None,["Map.Set","Map.Purge","Map.Delete","Map.LoadItem"])

for x in P:
    assert len(x["title"])<=80,x["title"]
    print(json.dumps(x))
