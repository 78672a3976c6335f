"""What decides each property. funcs/lemmas: proved by gvc (with all contracted callees). harness: concrete replay."""

EL = ["root/elements_common.go.txt"]
ST = ["root/store_common.go.txt"]
SG = ST + ["root/segments_common.go.txt"]


def root(pid, *extra, **kw):
    return dict({"pkg": "", "files": EL + list(extra) + ["root/%s.go.txt" % pid]}, **kw)


def blob(pid, **kw):
    return dict({"pkg": "blobstore", "files": ["blobstore/store_common.go.txt", "blobstore/%s.go.txt" % pid]}, **kw)


def api(pid, **kw):
    return dict({"pkg": "api", "files": ["api/api_common.go.txt", "api/%s.go.txt" % pid]}, **kw)


E = "rankdb.Elements."
SS = "rankdb.Segments."
BIG = "Elements.Sort is proved for fewer than 25000 elements; its parallel merge sort above that is covered by concrete inputs only"

API = [".", "backup", "api/app", "api/client", "api/morph", "api"]

CODEC_TECH = ("contract-based deductive verification: encoding contracts (the sequence of parts written, its inverse, its size, its version tag) on the real "
              "encoding and decoding functions, discharged function by function by symbolic execution of every path, loops over parts cut at an inductive invariant")

PROPS = {
    "R01": {"lemmas": ["above_total"], "funcs": ["rankdb.Element.Above", "rankdb.Element.aboveP", E + "Sort", "rankdb.RankedElements.Sort"],
            "harness": [root("R01")], "assumptions": [BIG], "bounded": [BIG],
            "note": "Proved: both comparison forms equal the documented order, which is a strict total order, and the sorts establish it."},
    "R02": {"funcs": [E + f for f in "Insert Update Add Delete Find FindIdx FindScoreIdx idxRank MinMax minMaxUnsorted".split()],
            "harness": [root("R02")],
            "note": "Every obligation of the single-element operations is discharged for all inputs."},
    "R03": {"funcs": [E + "Merge"], "harness": [root("R03")],
            "note": "Merge is proved for all sizes, capacities and sharing flags."},
    "R04": {"funcs": [E + f for f in "Deduplicate MergeDeduplicate HasDuplicates ids".split()] + ["rankdb.NewElements"], "harness": [root("R04")],
            "note": "Deduplicate, NewElements and MergeDeduplicate are proved for all inputs."},
    "R05": {"funcs": ["rankdb.ElementIDs." + f for f in "Map Deduplicate Sort NotIn Overlap AsScore".split()] +
            ["rankdb.ListIDs.Sort", "rankdb.ListIDs.Deduplicate", E + "IDs", E + "ElementIDs", "rankdb.Element.AsIndex", "rankdb.RankedElements.IDs"],
            "harness": [root("R05")], "assumptions": [BIG],
            "note": "Set results are proved as exact multiplicities for all inputs."},
    "R06": {"funcs": [E + "SplitSize"], "harness": [root("R06")],
            "note": "SplitSize is proved for every target size (sizes below 1 count as 1)."},
    "R07": {"lemmas": ["tiled_cover", "tiled_exactly_one"],
            "funcs": ["rankdb.Segment.FilterIdx", "rankdb.Segment.Filter"] + [SS + f for f in "splitElementsIdx splitScores splitElementsID reindex".split()],
            "harness": [root("R07", *SG)],
            "note": "Proved: in every tiling each position lies in exactly one segment, and elements, scores and index entries are routed to that segment, each exactly once."},
    "R08": {"funcs": ["rankdb.Element.PrevMax", "rankdb.Element.AboveThis", "rankdb.MaxSegment", "rankdb.NewSegmentElements", "rankdb.NewSegmentsElements", "rankdb.Segment.elementsUpdated"] +
            [SS + f for f in "newID splitIdx mergeWithNext AlignIndex Append replaceSegment newLockedSegment Verify".split()],
            "harness": [root("R08", *SG)],
            "note": "Proved: creating, splitting, merging, appending and aligning segments keep the tiling; Verify accepts tilings only. The storage write of a segment is an assumed contract."},
    "R09": {"lemmas": ["elements_above", "elements_below"],
            "funcs": [SS + f for f in "segIdxTop segIdxBottom segIdxScore topOffsets topRankOf Elements".split()] +
            ["rankdb.RankedElement.CalculateFromBottom", "rankdb.RankedElements.CalculateFromBottom", "rankdb.RankedElements.Offset", E + "Ranked", "rankdb.List.Len"],
            "harness": [root("R09", *SG)],
            "note": "Proved: rank offsets and both rank directions equal the number of elements above and below, for every segment layout."},
    "R10": {"funcs": [SS + "findRanked", SS + "getElementIndex"],
            "harness": [root("R10", *SG)],
            "note": "Proved for all inputs over the assumed contract of the segment loader."},
    "R11": {"funcs": [SS + "getElementsOffset", SS + "getElementsFromScore"] + ["rankdb.List." + f for f in "getRankTop GetRankTop getRankBottom GetRankBottom GetRankScoreDesc GetPercentile".split()],
            "harness": [root("R11", *SG)],
            "note": "Proved for all inputs over assumed contracts of the segment loader and math/big."},
    "R12": {"funcs": [E + "FirstElementsWithScore"], "harness": [root("R12", *ST)],
            "note": "FirstElementsWithScore is proved; the lookup across segments is bounded."},
    "R13": {"lemmas": ["key_order"], "funcs": ["sortfloat.SortableFloat64", "sortfloat.ReverseFloat64"], "targets": ["sortfloat"],
            "harness": [{"pkg": "sortfloat", "files": ["sortfloat/R13.go.txt"]}],
            "note": "Both conversions and the order of the keys are proved for all bit patterns with bit-precise floating point."},
    "R14": {"codec": "codec.own", "targets": ["."], "harness": [root("R14", *ST)],
            "bounded": ["the records of the list database (Lists.Save and Load) and their version tags, corrupted and truncated input, streams cut at any point, and JSON: concrete values"],
            "assumptions": ["the msgp library's readers and writers of single parts are inverse to each other (stated as contracts)"],
            "technique": CODEC_TECH,
            "note": "For every value of every stored type, both decoders are proved to rebuild the value from both encodings, whatever they decode into, and to consume exactly it; encoders report failed writes and sizes bound the encoding. Segments, segment collections and list backups are proved to load exactly what was saved and to refuse every other version. Damaged input is bounded."},
    "R15": {"funcs": ["blobstore.MaxSizeStore.Get", "blobstore.MaxSizeStore.Set", "blobstore.MaxSizeStore.Delete", "blobstore.NewMaxSizeStore"], "targets": ["log", "blobstore"],
            "harness": [blob("R15", race=False)],
            "bounded": ["that no two pairs of set and key share a lock and part count (mapKey), sizes of parts stored by a write that fails half way, and concurrent use: concrete histories"],
            "assumptions": ["encoding/binary's varint functions and strconv.Itoa behave as documented (stated as contracts)"],
            "note": "Proved for all blobs, part sizes and part counts: Set lays the blob out in parts of at most the limit and removes surplus known parts, Get rebuilds exactly the blob from any such layout, Delete removes every part, and no other key of the set changes."},
    "R16": {"funcs": ["memstore.NewMemStore", "memstore.MemBlobStore.Get", "memstore.MemBlobStore.Set", "memstore.MemBlobStore.Delete",
            "blobstore.storeWithSet.Get", "blobstore.storeWithSet.Set", "blobstore.storeWithSet.Delete", "blobstore.storeWithSet.Store", "blobstore.StoreWithSet"],
            "targets": ["log", "blobstore", "blobstore/memstore"],
            "harness": [{"pkg": "blobstore/memstore", "files": ["memstore/R16.go.txt"]}],
            "bounded": ["the stores over bolt and badger files and the counting of reads, writes and deletes: concrete sequences of operations"],
            "note": "The in-memory store is proved to be an exact map from set and key to a copy of the bytes, and a store bound to a set to address that set only."},
    "R17": {"funcs": ["blobstore.RetryStore.Get", "blobstore.RetryStore.Set", "blobstore.RetryStore.Delete", "blobstore.NewRetryStore",
            "blobstore.RetryOpt.Backoff$1", "blobstore.RetryOpt.PermanentErr$1", "blobstore.RetryOpt.OpTimeout$1", "backoff.WithContext"],
            "targets": ["log", "blobstore", "github.com/cenkalti/backoff"],
            "harness": [blob("R17")],
            "bounded": ["the contents of the default table of permanent errors, the waiting times and the per-operation timeout: concrete stores and contexts"],
            "assumptions": ["each operation of the wrapped store reports one outcome, and no store returns the back-off library's own marker error"],
            "note": "Proved through the source of the back-off library's retry loop: a success is the store's success with the store's data, a failure is the last attempt's error, no attempt follows a permanent error; options change only what they name."},
    "R18": {"funcs": ["blobstore.NewLazySaver$1", "blobstore.NewLazySaver$2", "blobstore.NewLazySaver$3", "blobstore.LazySaver.saveFront", "blobstore.LazySaver.startSaver", "blobstore.LazySaver.requestHandler"],
            "targets": ["std:container/list", "blobstore"], "harness": [blob("R18")],
            "assumptions": ["the state guarded by the saver's lock changes only where a function under contract releases it (rely-guarantee: each proves what it leaves alone, and relies on what the others prove)",
                            "container/list, the buffer pool and the key built from set and key (which names both) are as their contracts say",
                            "an entry marked as being saved is changed only by the saver it is sent to (what is sent is proved marked, and sent once)",
                            "a store operation that reports success did it; what a failing store loses is not decided"],
            "bounded": ["that Set, Delete and Get wait for room, that all accepted writes are saved when Shutdown returns, refusal after shutdown, and deadlock freedom: concrete schedules under the race detector"],
            "technique": "contract-based deductive verification: a monitor invariant for the saver's lock with rely and guarantee clauses on the real functions and closures (verification conditions, z3/cvc5)",
            "note": "Proved for every interleaving at lock acquisitions: a read returns the last write whether queued, being saved or stored; a write or delete takes effect for readers at once, leaves entries being saved alone and is ordered after them; a saver stores exactly the entry's bytes under its key, after the entry before it, and forgets the entry only once it is stored; the queue is handed out oldest first, each entry once, and the savers' channel closes only when every entry is with a saver."},
    "R19": {"funcs": ["api.HasAccessToList", "api.HasAccessToElement"], "targets": API,
            "harness": [api("R19")], "bounded": ["that every handler asks before it touches a list or element: run on concrete tokens and requests for each handler"],
            "assumptions": ["strings.Split, strings.TrimSpace and strconv.ParseUint are uninterpreted: which parts a claim has is theirs to say", "the security middleware puts the verified token into the context"],
            "note": "Both access decisions are proved equivalent to the claim listing every requested ID, for all tokens and IDs; their use by the handlers is bounded."},
    "R20": {"funcs": ["rankdb.Lists." + f for f in "SortedIDsAfter SortedIDsBefore ByID".split()], "targets": API,
            "harness": [{"pkg": "", "files": ["root/R20.go.txt"]}],
            "assumptions": ["sync.Map holds what was stored and Range visits every key once (stated as contracts)", "sort.StringSlice.Sort sorts (stated as a contract)"],
            "note": "Proved for every database, start ID and page size: the page is the closest IDs beyond the start, ascending, each with its own list, with exact counts before and after."},
    "R21": {"funcs": ["rankdb.Lists." + f for f in "MatchAll Exists ByID ByIDs Add Delete All".split()], "targets": API,
            "harness": [{"pkg": "", "files": ["root/R21.go.txt"]}, api("R21")],
            "assumptions": ["sync.Map holds what was stored and Range visits every key once (stated as contracts)"],
            "bounded": ["the handlers that turn all_in_sets and match_metadata into a selection: concrete requests"],
            "note": "Proved for every database and query: a selection holds each stored list at most once, exactly when its set is requested or its metadata has every requested pair; lookups, additions and deletions touch exactly the named lists."},
    "R22": {"codec": "codec.own", "funcs": ["backup.RestoreInfo.Restore", "backup.Request.Start", "backup.backupList", "rankdb.Manager.DeleteList", "rankdb.Lists.Add", "rankdb.Lists.Delete", "rankdb.Lists.ByID"],
            "targets": [".", "backup"], "harness": [{"pkg": "backup", "files": ["backup/R22.go.txt"]}],
            "assumptions": ["reading a backup gives the parts that were written, in order (stated as contracts of msgp's reader and writer and of zstd)",
                            "whether one record can be restored does not change while it is restored",
                            "a backup holds each list ID once", "the backup job's goroutine runs to its end without interference"],
            "bounded": ["corrupt and truncated backups, failing storage, backups kept in files or sent to a server, backups of lists that change meanwhile: concrete backups"],
            "technique": "contract-based deductive verification: encoding contracts (what List.Backup saves is what RestoreList loads; discharged by symbolic execution) and contracts over the stream of records for the backup job and the restore loop (verification conditions, z3/cvc5)",
            "note": "Proved: a restored list equals the saved one under the new ID and leaves the original's stored data alone; the job writes one record per list it reports saved and reports the others; the restore loop restores, skips, replaces or reports exactly as each record's fate says, with exact counts, and touches no other list."},
    "R23": {"funcs": ["morph." + f for f in ("RankedElement.Tiny RankedElement.Default RankedElement.Full RankedElement.FullUpdate RankedElement.FullExt nearestLast Elements.ToRanked RankedElements.Tiny RankedElements.Default "
            "RankedElements.Full ApiElements.Elements ElementIDs.Array ApiElementIDs.ElementIDs NewApiElementIDsString NewApiElementIDString List.Default List.Full APIListIDs.IDs").split()], "targets": [".", "api/app", "api/morph"],
            "harness": [{"pkg": "api/morph", "files": ["morph/R23.go.txt"]}, api("R23")],
            "bounded": ["the handlers that put the conversions together (api/elements.go, api/lists.go): concrete requests"],
            "note": "Every conversion is proved field by field, with the rank of every neighbour, for all elements and neighbour counts."},
    "R24": {"funcs": [SS + f for f in ("Insert", "Insert$1", "DeleteElements$1", "DeleteElementsIdx$1", "updateIndexElements$1", "FindElements", "FindElements$1")],
            "harness": [root("R24", "root/list_common.go.txt", *ST)], "level": "exploration",
            "assumptions": ["the goroutine of one segment does what its contract says independently of the others, as each holds the lock of the only segment it changes",
                            "loading a segment gives what is stored for it (contract of Segments.elementFullIdx)"],
            "bounded": ["that List.UpdateElements, List.Populate, List.split, List.Repair and the others put these steps together into one sorted set after any history: concrete histories over many segment sizes and reload points"],
            "technique": "contract-based deductive verification of the steps (verification conditions, z3/cvc5), with a bounded check of their composition over histories of the real list",
            "note": "Proved for all segments and inputs: an insertion hands every element to the one segment whose range holds it, and each segment is replaced by exactly the old elements with the new ones, in order; deletions leave exactly the others, in order, and report exactly what was removed; index updates change exactly the named entries; a lookup finds every requested element of each segment it asks, and whatever it finds has its true rank and neighbours. That whole histories keep one sorted set is bounded."},
    "R25": {"locks": "locks.own", "targets": [".", "blobstore", "blobstore/memstore", "blobstore/badgerstore", "backup", "api/app", "api/client", "api/morph", "api"],
            "harness": [root("R25", "root/list_common.go.txt", *ST)],
            "bounded": ["later operations on the list succeed with the right content once storage works again: every failure position of scripted histories",
                        "List.ReleaseSegments, which hands its locks to a goroutine and gives up after a minute"],
            "assumptions": ["function values of unknown origin (callbacks given by the caller) neither lock nor unlock",
                            "an entry of a map of locked segments is not overwritten by another locked segment (UpdateElements looks an index up before it loads it)",
                            "panics are not followed; waiting on channels is modelled only for the two channels other operations wait for"],
            "technique": "contract-based deductive verification: ownership contracts (which lock is held, which unlock function is owed) on the real functions, discharged function by function by symbolic execution of every path, loops cut at an invariant ledger",
            "note": "Every function of the repository that touches a lock is proved to leave the locks as its contract says, on every path; that the list then answers rightly is bounded."},
    "R27": {"funcs": ["rankdb.RandString"], "harness": [{"pkg": "", "files": ["root/R27.go.txt"]}],
            "assumptions": ["crypto/rand.Read fills the whole slice and returns no error (documented since Go 1.24; the code panics otherwise)"],
            "note": "RandString is proved for every n >= 0 (up to 10^12), every time and every output of the random source."},
}

NOT_APPLICABLE = {
    "R26": "Contracts follow one call at a time. The lock ledger (R25) proves who holds which lock but not what each lock protects, and the monitor clauses that carry an invariant across lock acquisitions cover the lazy saver's single lock (R18); a list's state is spread over segments, an index and storage under many locks. Serialisability of concurrent operations cannot be stated as a postcondition of one call, and no installed deductive verifier for Go offers a logic for it (no Gobra, no Viper).",
}
