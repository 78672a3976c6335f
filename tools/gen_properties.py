import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=obs or []
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
p("R01","The ranking order is one strict total order, used consistently",
"Of two elements, the one with the higher score ranks above; on equal scores the higher tie breaker, then the earlier update time, then the lower ID decides. The comparison is irreflexive, transitive and total on elements that differ in any of those four fields, and every form of the comparison (by value, by reference, sorter functions, re-sorting of ranked results) gives the same answer.",
["inputs"],"all pairs/triples of elements over the full 64/32-bit ranges",
"Tests compare a dozen hand-picked pairs; totality and transitivity are statements over all pairs and triples.",
["element.go","elements.go","rankedelement.go"],[("Element.Above","element.go:34"),("Element.aboveP","element.go:48"),("Elements.Sorter","elements.go"),("RankedElements.Sort","rankedelement.go")],None,["return values of the comparison and sort functions"])
p("R02","Single-element edits of a sorted collection keep it sorted, exact and ranked",
"Inserting, updating, adding or deleting one element in a sorted collection leaves a sorted collection that contains exactly the previous elements plus/minus the one edited, with no other element lost, duplicated or altered. The returned index or rank is the edited element's true position: the number of elements above it, and below it. Looking up or deleting an ID (or a score) that is absent reports not found and changes nothing; a lookup that succeeds returns the first match.",
["inputs","histories"],"every sorted collection of any length and capacity, every element, every sequence of edits",
"Tests run a few collections of at most a handful of elements.",
["elements.go"],[("Elements.Insert","elements.go"),("Elements.Update","elements.go"),("Elements.Add","elements.go"),("Elements.Delete","elements.go"),("Elements.Find/FindIdx/FindScoreIdx","elements.go"),("Elements.idxRank","elements.go")],[("Elements","sorted slice of elements","elements.go")],["collection content","returned rank/index/error"])
p("R03","Merging two sorted collections gives the sorted union, whatever the sizes",
"Merging a sorted collection into another yields a sorted collection holding exactly the elements of both, counted with multiplicity. This holds for every size, spare capacity and sharing flag, and the collection being merged in is left unmodified; when the target is declared as shared, elements outside the target stay untouched.",
["inputs"],"all pairs of sorted collections, all lengths/capacities, both values of the sharing flag",
"Tests only sample a few sizes and never check multiplicities or memory sharing.",
["elements.go"],[("Elements.Merge","elements.go")],None,["merged collection","argument collection","backing array neighbours"])
p("R04","Deduplication keeps exactly one, the right, element per ID",
"After deduplicating a collection every ID present before is present exactly once and no other appears; the survivor is the element with the latest update time, and on equal update times the highest score. The result is sorted in ranking order, and the reported change flag is true exactly when something was removed. Building a collection from raw elements, and merging with overwrite of existing IDs, give the same uniqueness and sortedness, the incoming element winning in the merge.",
["inputs"],"all collections, in any order, with any number of duplicates per ID",
"Tests have at most three elements and never equal update times with different scores.",
["elements.go"],[("Elements.Deduplicate","elements.go"),("NewElements","elements.go"),("Elements.MergeDeduplicate","elements.go"),("Elements.HasDuplicates","elements.go")],None,["resulting collection and flag"])
p("R05","Identifier-set operations are exact set operations",
"Deduplicating, subtracting, intersecting and mapping element-ID or list-ID collections give exactly the mathematical set result: no ID lost, invented or repeated beyond what the inputs contain, and deduplicated results are sorted as documented. Deriving IDs, scores or index entries from a collection keeps one entry per element with the ID and owning segment intact. The inputs are not modified by the subtracting and intersecting operations.",
["inputs"],"all ID collections, with and without duplicates",
"Tests use single examples.",
["elements.go","list-id.go"],[("ElementIDs.Deduplicate/NotIn/Overlap/Map/AsScore","elements.go"),("Elements.IDs/ElementIDs","elements.go"),("Element.AsIndex","element.go"),("ListIDs.Deduplicate","list-id.go")],None,["returned collections"])
p("R06","Splitting a collection is an order-preserving partition that never splits ties",
"Splitting a collection for a target size (below one counts as one) yields pieces whose concatenation is the original collection, in order and complete; for a non-empty collection every piece is non-empty. Elements with equal score and tie breaker that are adjacent never end up in different pieces. A collection no larger than the target yields exactly one piece, and no more pieces are produced than the target size requires.",
["inputs"],"all collections and all target sizes",
"Tests check a few sizes with few ties.",
["elements.go"],[("Elements.SplitSize","elements.go")],None,["returned pieces"])
p("R07","Every element is routed to exactly the one segment whose range contains it",
"For a sorted batch of elements and segments that tile the score range, each element is handed to exactly one segment, the one whose range contains its score and tie breaker; nothing is dropped, duplicated or reordered. The same holds for batches of index scores and of index updates.",
["inputs"],"all segment tilings, all sorted batches (update time below the 32-bit maximum)",
"Tests use a few fixed tilings; boundary ties and empty segments are not enumerated.",
["segment.go","segments.go"],[("Segment.FilterIdx/Filter","segment.go"),("Segments.splitElementsIdx","segments.go"),("Segments.splitScores","segments.go"),("Segments.splitIndexUpdates","segments.go"),("Segments.splitElementsID","segments.go")],None,["which segment receives each element"])
p("R08","Segments always tile the whole score range, through splits and merges",
"Segments of a list cover the whole (score, tie breaker) range without gap or overlap, highest first. Creating segments from pieces, splitting a segment, merging neighbours and aligning index segments all preserve this, keep the element counters exact and keep every element inside its segment's range. The structural verification accepts exactly the tilings: it rejects any gap, overlap, missing end, duplicate segment ID or unset time.",
["inputs","histories"],"all tilings, all split/merge positions, all element contents",
"Tests verify a few generated lists; boundary arithmetic at score/tie extremes is not reached.",
["segment.go","segments.go","element.go","list.go"],[("Element.PrevMax/AboveThis","element.go"),("NewSegmentsElements","segments.go"),("Segments.splitIdx","segments.go"),("Segments.mergeWithNext","segments.go"),("Segments.AlignIndex","segments.go"),("Segments.Verify","segments.go")],[("Segments.Segments","ordered segment descriptors","segments.go")],["segment bounds","Verify result"])
p("R09","Ranks count exactly the elements above and below",
"For any element count per segment, a position from the top or from the bottom maps to the segment and in-segment position that has exactly that many elements before (after) it, and positions outside the list map to none. Per-segment starting ranks and totals are exact prefix sums. Conversions between rank from top, rank from bottom and total always satisfy top + bottom + 1 = total.",
["inputs"],"all segment layouts including empty segments, all offsets",
"Tests sample a list with a handful of uniform segments.",
["segments.go","rankedelement.go","elements.go"],[("Segments.segIdxTop/segIdxBottom/segIdxScore","segments.go"),("Segments.topOffsets/topRankOf/Elements","segments.go"),("RankedElement.CalculateFromBottom, RankedElements.Offset/CalculateFromBottom","rankedelement.go"),("Elements.Ranked","elements.go")],None,["ranks reported to users"])
p("R10","Neighbours of an element are the nearest ones, contiguous and complete",
"Looking up an element with a radius returns its true rank from the top, the up to radius elements immediately above it (nearest first) and immediately below it (nearest first), crossing segment borders and empty segments. Fewer than radius are returned only at the ends of the list; an absent ID reports not found.",
["inputs"],"all segment layouts and contents including empty segments, all elements, all radii",
"Tests use fixed data with radius 2 or 10.",
["segments.go"],[("Segments.findRanked","segments.go"),("Segments.getElementIndex","segments.go")],None,["ranked element with neighbours"])
p("R11","Range reads return exactly the requested contiguous run of the ranking",
"Reading n elements from a position (from the top, from the bottom, or from a score) returns the contiguous run of the ranking starting there, across segment borders and empty segments, shorter only when the list ends. Reading from a score starts at the first element whose score is not above it, with exact ranks. The percentile query returns the element at that share of the list and reports not found for an empty list.",
["inputs"],"all segment layouts and contents, all offsets, counts, scores and percentiles",
"Tests read a few ranges of a uniform list.",
["segments.go","list.go"],[("Segments.getElementsOffset","segments.go"),("Segments.getElementsFromScore","segments.go"),("List.GetRankTop/GetRankBottom/GetRankScoreDesc/GetPercentile","list.go")],None,["returned elements and ranks"])
p("R12","Batch index lookup finds every requested identifier that exists",
"Given scores sorted descending, the batch lookup in a sorted collection returns, for every requested score that is present in a collection without repeated scores, the element carrying it. An element returned never has a score above the highest requested one, and at most one element is returned per requested score.",
["inputs"],"all sorted collections and all descending score batches",
"Tests cover one batch.",
["elements.go","segments.go"],[("Elements.FirstElementsWithScore","elements.go"),("Segments.getFirstWithScore","segments.go")],None,["elements found by ID lookup"])
p("R13","Float sort keys preserve numeric order and convert back exactly",
"Converting floating-point numbers to unsigned sort keys is strictly order-preserving on all numbers including subnormals and infinities; negative and positive zero share one key, and not-a-number gets a key below every number. Converting a key back yields the identical number (positive zero for either zero), and not-a-number for the not-a-number key.",
["inputs"],"all pairs of 64-bit floating-point bit patterns",
"Tests sample values; the claim is over all pairs of 2^64 bit patterns.",
["sortfloat/float.go"],[("SortableFloat64","sortfloat/float.go"),("ReverseFloat64","sortfloat/float.go")],None,["keys and converted numbers"])
p("R14","Stored elements, segments and lists read back identical",
"Serialising any element, element collection, segment, segment collection, list description or ID set, by buffer or by stream, and reading it back yields an equal value and consumes exactly the bytes written; the advertised size bound is never exceeded. Data tagged with another format version is rejected, not misread.",
["inputs"],"all values of the stored types over full field ranges",
"Generated tests serialise zero values only.",
["element_gen.go","elements_gen.go","segment_gen.go","segments_gen.go","list_gen.go","list-id_gen.go","msgppool.go"],[("MarshalMsg/UnmarshalMsg/EncodeMsg/DecodeMsg/Msgsize","*_gen.go"),("MsgpGetVersion/SetVersion","msgppool.go")],None,["decoded values"])
p("R15","Size-limited storage splits and rejoins blobs losslessly",
"A blob written through the size-limiting layer reads back byte for byte, however many parts it needs, and no stored part exceeds the configured size; overwriting with a shorter or longer blob behaves the same and leaves no stale parts readable or stored. Blobs beyond the documented limit are refused as too big. Deleting removes every part, and a failure to do so is reported.",
["inputs","histories","fault_sequences"],"all blob sizes relative to the part size, all sequences of set/get/delete, also after reopening, with underlying failures, and two clients of one key at a time",
"Tests use a few sizes.",
["blobstore/maxsize.go"],[("MaxSizeStore.Set/Get/Delete","blobstore/maxsize.go"),("mapKey/extKey","blobstore/maxsize.go")],None,["bytes read back","keys stored"])
p("R16","Blob stores keep keys and sets apart and return what was last written",
"In every blob store layer, reading a key of a set returns the bytes last written to that key of that set, or the documented not-found error if it was never written or was deleted since. Operations on one (set, key) pair never affect another pair, and binding a store to a set addresses that set only. Callers may reuse their buffers after writing without changing stored data.",
["histories","inputs"],"all histories of operations over all set and key strings",
"Tests use a few fixed keys.",
["blobstore/blobstore.go","blobstore/memstore/memstore.go","blobstore/lazysaver.go"],[("StoreWithSet","blobstore/blobstore.go"),("MemStore","blobstore/memstore/memstore.go"),("LazySaver","blobstore/lazysaver.go")],None,["bytes and errors returned"])
p("R17","Retries stop on permanent errors, and only those the store was told about",
"The retrying layer returns the underlying result: success as soon as one attempt succeeds, and a permanent error (not found, too big, cancelled, or one configured for that store) immediately after a single attempt and unchanged. Errors configured as permanent for one store take effect for that store and for no other. Every other error is retried per the configured back-off and finally reported.",
["fault_sequences","configurations"],"all error sequences of the underlying store and all option combinations",
"Tests inject random failures but never configure permanent errors.",
["blobstore/retry.go"],[("RetryOpt.PermanentErr","blobstore/retry.go"),("RetryStore.Get/Set/Delete","blobstore/retry.go")],None,["attempt count and returned error"])
p("R18","Delayed saving never shows a reader anything but the last write",
"Through the write-delaying layer a reader sees the last value written, or not found after a delete, whether or not it has reached the backing store yet. After an orderly shutdown or flush the backing store holds the last written value of every key. ",
["histories","schedules"],"all histories of set/get/delete by one client, with saves happening at any time",
"Tests run one scripted history.",
["blobstore/lazysaver.go"],[("LazySaver.Get/Set/Delete","blobstore/lazysaver.go")],None,["bytes read; content of the backing store after shutdown"])
p("R19","Token restrictions admit exactly the listed lists and elements",
"A request whose token restricts lists is admitted exactly when every list it addresses is named in the restriction; likewise for elements. Spaces around names are ignored, names match exactly and in full, an empty restriction admits nothing, and a token without restriction, or a deployment without tokens, admits everything.",
["inputs"],"all restriction strings and all requested IDs",
"Tests use two or three tokens.",
["api/jwt.go"],[("HasAccessToList","api/jwt.go"),("HasAccessToElement","api/jwt.go")],None,["access decision"])
p("R20","Paging through lists by ID is complete, ordered and correctly counted",
"Asking for n lists after (before) an ID returns the n closest existing lists on that side in ascending ID order, fewer only when no more exist, independent of the internal enumeration order. The reported numbers of lists before and after the returned page are exact: together with the page they account for every list once, the given ID itself being counted on the side it was excluded to.",
["inputs","schedules"],"all sets of list IDs, all enumeration orders, all anchors and page sizes",
"Tests use one set of lists and the enumeration order is random per run.",
["lists.go"],[("Lists.SortedIDsAfter","lists.go"),("Lists.SortedIDsBefore","lists.go")],None,["pages and counts"])
p("R21","List selection returns exactly the matching lists",
"Selecting lists by metadata returns exactly the lists whose metadata contains every requested pair, plus all lists of the requested sets, each once; an empty request selects nothing. Selecting by ID returns exactly those of the requested lists that exist and reports the others, and a list added or deleted is visible or gone in all later selections.",
["inputs","histories"],"all collections of lists and all queries",
"Tests use a handful of lists.",
["lists.go","list-id.go"],[("Lists.MatchAll","lists.go"),("Lists.Exists/ByID/ByIDs","lists.go"),("Lists.Add/Delete/All","lists.go")],None,["selected IDs"])
p("R22","A restored backup holds the same lists and reports every list's fate",
"Restoring a backup recreates every list in it with the same settings, metadata and elements under the requested (prefixed/suffixed) ID. Lists that already exist are skipped, or replaced when asked, and a list that cannot be restored is reported as failed without stopping the others. The counts of restored, skipped and failed lists add up to the lists in the backup.",
["inputs","fault_sequences"],"all list contents, existing/not existing destinations, corrupt or unstorable list records",
"Tests restore one healthy list.",
["list.go","backup/job.go","backup/restore.go"],[("List.Backup","list.go"),("RestoreList","list.go"),("RestoreInfo.Restore","backup/restore.go")],None,["restored lists","restore result"])
p("R23","Responses carry each element's own fields and true ranks",
"Converting stored results to responses keeps every element's ID, score, tie breaker, payload, time and both ranks unchanged, in order and without loss. Neighbours in a response carry their own true ranks: each element below is one further from the top than the previous, and elements above end with the one just above. Converting requests to elements keeps every supplied field, defaulting only absent ones; an update without a payload leaves the stored one.",
["inputs"],"all elements, all neighbour counts",
"API tests only use one neighbour on each side.",
["api/morph/elements.go","api/morph/lists.go"],[("RankedElement.Full/Default/Tiny","api/morph/elements.go"),("Elements.ToRanked","api/morph/elements.go"),("ApiElements.Elements","api/morph/elements.go")],None,["response objects"])
p("R24","A list behaves as one sorted set of elements keyed by ID",
"After any sequence of populate, insert, update, delete, split, merge, repair and reload, the list contains each ID last written exactly once with its last values and no other, in ranking order. Looking up IDs finds exactly those present, in ranking order and with their true ranks, and the list passes its own verification. Updates report the new rank and the previous placement of each element.",
["histories"],"all operation histories, segment sizes and reload points (single client, fault-free storage)",
"Tests run a few scripted histories with fixed seeds; the state space of segment layouts is not enumerated.",
["list.go","segments.go","lists.go"],[("List.UpdateElements/Insert/DeleteElements/Populate/Repair/split","list.go"),("Segments.Insert/DeleteElements/DeleteElementsIdx","segments.go"),("Segments.updateIndexElements","segments.go")],[("List.scores/index","score segments and ID index","list.go")],["elements and ranks read back","verification result"])
p("R25","A failing operation never leaves a list locked",
"Whatever storage error occurs during an operation on a list, the operation returns and releases every lock it took, exactly once, on every path. No operation waits for a lock it holds itself, and a segment is never left locked or marked as still loading. Later operations on the list proceed and, once storage works again, succeed.",
["fault_sequences","inputs"],"every path through every operation, in particular every storage failure position",
"Tests inject no storage failure at list level.",
["segments.go","list.go"],[("Segments.replaceSegment/elementFullIdx","segments.go"),("List.loadSegments/newSegments/populate/reindex/Backup","list.go")],None,["later operations on the same list complete"])
p("R26","Concurrent operations on one list do not lose or corrupt elements",
"When several clients update, delete and read one list at the same time, the outcome equals some serial order of the operations, and readers never observe a half-applied update.",
["schedules"],"all interleavings",
"Tests run a few concurrent clients under the race detector.",
["list.go","segments.go","segment.go"],[("List.loadSegments locks","list.go"),("elementLoader","segment.go")],None,["results of concurrent requests"])
p("R27","Random identifiers have the requested length and safe characters",
"A random identifier requested with n random characters has exactly n + 8 characters (16 when no number is given), every one of them a digit or an ASCII letter. This holds for every n of at least zero, every time and every output of the random source.",
["inputs"],"all lengths, all times, all random source outputs",
"Tests sample one length.",
["tools.go"],[("RandString","tools.go")],None,["returned string"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert x['statement'].count('. ')<=3,x['id']
print(len(P))
