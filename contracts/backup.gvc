package backup;

# A backup is read as a sequence of parts. Part p of the backup a loader opens, as each kind of part:
uf sBool(l Loader, p int) bool;
uf sByte(l Loader, p int) uint8;
uf sString(l Loader, p int) string;
# Where a stream, a decompressor and a reader of parts get theirs from.
uf srcOf(r any) Loader;
uf zsrc(r *zstd.Decoder) Loader;
uf msrc(r *msgp.Reader) Loader;
# The next part of a reader.
ghost rdPos(r *msgp.Reader) int;
# What a byte slice that was read holds, and what a reader over a byte slice reads.
uf partOf(b []byte) int;
uf partsOf(b []byte) Loader;
uf rpart(r *rankdb.ReaderMsgp) int;
uf rsrc(r *rankdb.ReaderMsgp) Loader;
# Whether the list in a part of a backup can be restored, and what a list was restored from.
uf restorable(l Loader, p int) bool;
uf madeFrom(x *rankdb.List) int;
uf madeOf(x *rankdb.List) Loader;

extern backup.Loader.Load(l, ctx) (r, err) { ensures err == nil ==> r != nil && srcOf(r) == l; }
extern zstd.NewReader(r, opts) (d, err) { ensures err == nil ==> d != nil && zsrc(d) == srcOf(r); }
extern rankdb.NewReaderMsgpReader(r) (m) {
	ensures m != nil && m.r != nil && rdPos(m.r) == 0;
	ensures isA(r, *zstd.Decoder) ==> msrc(m.r) == zsrc(asA(r, *zstd.Decoder));
}
extern rankdb.NewReaderMsgp(b) (m) {
	ensures m != nil && m.r != nil;
	ensures rpart(m) == partOf(b) && rsrc(m) == partsOf(b);
}
extern msgp.Reader.ReadBool(r) (b, err) {
	modifies rdPos(r);
	ensures rdPos(r) == old(rdPos(r)) + 1;
	ensures err == nil ==> b == sBool(msrc(r), old(rdPos(r)));
}
extern msgp.Reader.ReadByte(r) (b, err) {
	modifies rdPos(r);
	ensures rdPos(r) == old(rdPos(r)) + 1;
	ensures err == nil ==> b == sByte(msrc(r), old(rdPos(r)));
}
extern msgp.Reader.ReadString(r) (b, err) {
	modifies rdPos(r);
	ensures rdPos(r) == old(rdPos(r)) + 1;
	ensures err == nil ==> b == sString(msrc(r), old(rdPos(r)));
}
extern msgp.Reader.ReadBytes(r, scratch) (b, err) {
	modifies rdPos(r), elems(scratch);
	ensures rdPos(r) == old(rdPos(r)) + 1;
	ensures err == nil ==> partOf(b) == old(rdPos(r)) && partsOf(b) == msrc(r);
}
extern rankdb.RestoreList(ctx, bs, r, c, newID) (x, err) {
	ensures err == nil <==> restorable(rsrc(r), rpart(r));
	ensures err == nil ==> x != nil && fresh(x) && madeFrom(x) == rpart(r) && madeOf(x) == rsrc(r);
	ensures err == nil && newID != nil ==> x.ID == *newID;
}
extern error.Error(e) (s) {}

# Record i of a backup: whether there is one, its version, the ID of its list here, and what becomes of it.
uf recs(l Loader) int;
uf dest(ri *RestoreInfo, i int) rankdb.ListID;
uf fates(ri *RestoreInfo) []int;
fold cntFate(e int; f int) count { e == f }
pred listHere(ri *RestoreInfo, k any, i int) { isA(k, rankdb.ListID) && asA(k, rankdb.ListID) == dest(ri, i) }

contract backup.RestoreInfo.Restore(ri, ctx) (r, err) {
	noterm;
	requires ri.DB != nil && ri.Source != nil && listsOK(ri.DB.Lists.lists);
	requires recs(ri.Source) >= 0 && !sBool(ri.Source, 4*recs(ri.Source)) && len(fates(ri)) == recs(ri.Source) && !fresh(fates(ri));
	requires forall i int {dest(ri, i)} :: 0 <= i && i < recs(ri.Source) ==> sBool(ri.Source, 4*i) && dest(ri, i) == ri.ListIDPrefix + sString(ri.Source, 4*i+2) + ri.ListIDSuffix;
	requires forall i int, j int {dest(ri, i), dest(ri, j)} :: 0 <= i && i < j && j < recs(ri.Source) ==> dest(ri, i) != dest(ri, j);
	requires fate: forall i int, k any {dest(ri, i), smHas(ri.DB.Lists.lists, k)} :: 0 <= i && i < recs(ri.Source) && listHere(ri, k, i) ==>
		fates(ri)[i] == ite(smHas(ri.DB.Lists.lists, k) && !ri.Replace, 0, ite(restorable(ri.Source, 4*i+3), 1, 2));
	modifies smHas(ri.DB.Lists.lists), smAt(ri.DB.Lists.lists), all(rankdb.List), rdPos, closed;
	ensures one: err == nil <==> r != nil;
	ensures counts: err == nil ==> r.Skipped == cntFate(fates(ri), 0, recs(ri.Source), 0) && r.Restored == cntFate(fates(ri), 0, recs(ri.Source), 1);
	ensures failed: err == nil ==> forall i int {dest(ri, i)} :: 0 <= i && i < recs(ri.Source) ==> (has(r.Failed, dest(ri, i)) <==> fates(ri)[i] == 2);
	ensures restored: err == nil ==> forall i int, k any {dest(ri, i), smHas(ri.DB.Lists.lists, k)} :: 0 <= i && i < recs(ri.Source) && listHere(ri, k, i) ==>
		(fates(ri)[i] == 1 ==> smHas(ri.DB.Lists.lists, k) && madeOf(asA(smAt(ri.DB.Lists.lists, k), *rankdb.List)) == ri.Source && madeFrom(asA(smAt(ri.DB.Lists.lists, k), *rankdb.List)) == 4*i+3) &&
		(fates(ri)[i] == 0 ==> smHas(ri.DB.Lists.lists, k) && smAt(ri.DB.Lists.lists, k) == old(smAt(ri.DB.Lists.lists, k))) &&
		(fates(ri)[i] == 2 ==> !smHas(ri.DB.Lists.lists, k));
	ensures others: forall k any {smHas(ri.DB.Lists.lists, k)} :: (forall i int {dest(ri, i)} :: 0 <= i && i < recs(ri.Source) ==> !listHere(ri, k, i)) ==>
		(smHas(ri.DB.Lists.lists, k) <==> old(smHas(ri.DB.Lists.lists, k))) && smAt(ri.DB.Lists.lists, k) == old(smAt(ri.DB.Lists.lists, k));
	ensures ok: listsOK(ri.DB.Lists.lists);
	loop 0 {
		invariant at: msrc(msg) == ri.Source && rdPos(msg) % 4 == 0 && 0 <= rdPos(msg) && rdPos(msg) / 4 <= recs(ri.Source);
		invariant next: rdPos(msg)/4 < recs(ri.Source) ==> dest(ri, rdPos(msg)/4) == ri.ListIDPrefix + sString(ri.Source, rdPos(msg)+2) + ri.ListIDSuffix && sBool(ri.Source, rdPos(msg));
		invariant last: rdPos(msg)/4 == recs(ri.Source) ==> !sBool(ri.Source, rdPos(msg));
		invariant mgr: unchanged(rankdb.Manager);
		invariant maps: forall m *sync.Map, k any {smHas(m, k)} :: m != ri.DB.Lists.lists ==> (smHas(m, k) <==> old(smHas(m, k)));
		invariant maps2: forall m *sync.Map, k any {smAt(m, k)} :: m != ri.DB.Lists.lists ==> smAt(m, k) == old(smAt(m, k));
		invariant ok: listsOK(ri.DB.Lists.lists);
		invariant counts: res.Skipped == cntFate(fates(ri), 0, rdPos(msg)/4, 0) && res.Restored == cntFate(fates(ri), 0, rdPos(msg)/4, 1);
		invariant failed: forall i int {dest(ri, i)} :: 0 <= i && i < recs(ri.Source) ==> (has(res.Failed, dest(ri, i)) <==> i < rdPos(msg)/4 && fates(ri)[i] == 2);
		invariant done: forall i int, k any {dest(ri, i), smHas(ri.DB.Lists.lists, k)} :: 0 <= i && i < rdPos(msg)/4 && listHere(ri, k, i) ==>
			(fates(ri)[i] == 1 ==> smHas(ri.DB.Lists.lists, k) && madeOf(asA(smAt(ri.DB.Lists.lists, k), *rankdb.List)) == ri.Source && madeFrom(asA(smAt(ri.DB.Lists.lists, k), *rankdb.List)) == 4*i+3) &&
			(fates(ri)[i] == 0 ==> smHas(ri.DB.Lists.lists, k) && smAt(ri.DB.Lists.lists, k) == old(smAt(ri.DB.Lists.lists, k))) &&
			(fates(ri)[i] == 2 ==> !smHas(ri.DB.Lists.lists, k));
		invariant rest: forall k any {smHas(ri.DB.Lists.lists, k)} :: (forall i int {dest(ri, i)} :: 0 <= i && i < rdPos(msg)/4 ==> !listHere(ri, k, i)) ==>
			(smHas(ri.DB.Lists.lists, k) <==> old(smHas(ri.DB.Lists.lists, k))) && smAt(ri.DB.Lists.lists, k) == old(smAt(ri.DB.Lists.lists, k));
		invariant fresh(res.Failed) || res.Failed == nil;
		invariant atloop(res.Failed) != nil ==> res.Failed != nil;
	}
}

# What was written: the parts a writer was given, whether a write failed, and where they go.
ghost wrPos(w *msgp.Writer) int;
ghost wrFailed(w *msgp.Writer) bool;
ghost wrBool(w *msgp.Writer, p int) bool;
ghost wrByte(w *msgp.Writer, p int) uint8;
ghost wrString(w *msgp.Writer, p int) string;
ghost wrList(w *msgp.Writer, p int) *rankdb.List;
ghost wrTo(w *msgp.Writer) Saver;
uf saverOf(d any) Saver;
uf zto(z *zstd.Encoder) Saver;
ghost wrBuf(w *msgp.Writer) *bytes.Buffer;
# The list whose backup a writer holds, a buffer has, and a byte slice is.
ghost wrHolds(w *msgp.Writer) *rankdb.List;
ghost outHas(b *bytes.Buffer) *rankdb.List;
uf backupOf(b []byte) *rankdb.List;
extern rankdb.NewWriterMsg() (m) { ensures m != nil && fresh(m) && m.w != nil && fresh(m.w); }
# How many of the parts a writer was given have reached its destination; whether the stream of a saver is closed, and whether all of it was stored.
ghost wrOut(w *msgp.Writer) int;
ghost closed(s Saver) bool;
ghost finished(s Saver) bool;
ghost complete(s Saver) bool;
# A reset to no destination leaves the record of what was written before.
extern msgp.Writer.Reset(w, dst) () {
	modifies wrTo(w), wrBuf(w), wrPos(w), wrOut(w), wrFailed(w), wrHolds(w);
	ensures isA(dst, *zstd.Encoder) ==> wrTo(w) == zto(asA(dst, *zstd.Encoder));
	ensures dst != nil && !isA(dst, *zstd.Encoder) ==> wrTo(w) == nil;
	ensures isA(dst, *bytes.Buffer) ==> wrBuf(w) == asA(dst, *bytes.Buffer);
	ensures dst != nil ==> wrPos(w) == 0 && wrOut(w) == 0 && !wrFailed(w) && wrHolds(w) == nil;
	ensures dst == nil ==> wrTo(w) == old(wrTo(w)) && wrBuf(w) == old(wrBuf(w)) && wrPos(w) == old(wrPos(w)) && wrOut(w) == old(wrOut(w)) && wrFailed(w) == old(wrFailed(w));
}
extern msgp.Writer.Flush(w) (err) {
	modifies outHas(wrBuf(w)), wrOut(w);
	ensures outHas(wrBuf(w)) == wrHolds(w);
	ensures wrOut(w) == ite(finished(wrTo(w)), old(wrOut(w)), wrPos(w));
}
extern zstd.Encoder.Close(z) (err) {
	modifies finished(zto(z)), complete(zto(z));
	ensures finished(zto(z)) && complete(zto(z)) == (old(complete(zto(z))) || !closed(zto(z)));
}
extern io.Closer.Close(c) (err) {
	modifies closed(saverOf(c));
	ensures closed(saverOf(c));
}
extern bytes.Buffer.Bytes(b) (r) { ensures backupOf(r) == outHas(b); }
extern rankdb.List.Backup(l, ctx, bs, w) (err) {
	modifies wrHolds(w.w), wrPos(w.w);
	ensures err == nil ==> wrHolds(w.w) == l;
}
extern msgp.Writer.WriteBool(w, b) (err) {
	modifies wrPos(w), wrFailed(w), wrBool(w);
	ensures forall p int {wrBool(w, p)} :: p != old(wrPos(w)) ==> wrBool(w, p) == old(wrBool(w, p));
	ensures err == nil ==> wrPos(w) == old(wrPos(w)) + 1 && wrBool(w, old(wrPos(w))) == b && wrFailed(w) == old(wrFailed(w));
	ensures err != nil ==> wrFailed(w);
}
extern msgp.Writer.WriteByte(w, b) (err) {
	modifies wrPos(w), wrFailed(w), wrByte(w);
	ensures forall p int {wrByte(w, p)} :: p != old(wrPos(w)) ==> wrByte(w, p) == old(wrByte(w, p));
	ensures err == nil ==> wrPos(w) == old(wrPos(w)) + 1 && wrByte(w, old(wrPos(w))) == b && wrFailed(w) == old(wrFailed(w));
	ensures err != nil ==> wrFailed(w);
}
extern msgp.Writer.WriteString(w, b) (err) {
	modifies wrPos(w), wrFailed(w), wrString(w);
	ensures forall p int {wrString(w, p)} :: p != old(wrPos(w)) ==> wrString(w, p) == old(wrString(w, p));
	ensures err == nil ==> wrPos(w) == old(wrPos(w)) + 1 && wrString(w, old(wrPos(w))) == b && wrFailed(w) == old(wrFailed(w));
	ensures err != nil ==> wrFailed(w);
}
extern msgp.Writer.WriteBytes(w, b) (err) {
	modifies wrPos(w), wrFailed(w), wrList(w);
	ensures forall p int {wrList(w, p)} :: p != old(wrPos(w)) ==> wrList(w, p) == old(wrList(w, p));
	ensures err == nil ==> wrPos(w) == old(wrPos(w)) + 1 && wrList(w, old(wrPos(w))) == backupOf(b) && wrFailed(w) == old(wrFailed(w));
	ensures err != nil ==> wrFailed(w);
}
# Record p of a writer is the backup of list x.
pred recordOf(w *msgp.Writer, p int, x *rankdb.List) { wrBool(w, p) && wrByte(w, p+1) == 1 && wrString(w, p+2) == x.ID && wrList(w, p+3) == x }
contract backup.backupList(ctx, db, lst, writer) (err) {
	requires db != nil && lst != nil && writer != nil && writer.w != nil;
	modifies wrTo, wrPos, wrFailed, wrBuf, wrHolds, wrOut, wrBool(writer.w), wrByte(writer.w), wrString(writer.w), wrList(writer.w), outHas;
	ensures record: err == nil ==> wrPos(writer.w) == old(wrPos(writer.w)) + 4 && recordOf(writer.w, old(wrPos(writer.w)), lst) && wrFailed(writer.w) == old(wrFailed(writer.w));
	ensures skipped: err != nil && !wrFailed(writer.w) ==> wrPos(writer.w) == old(wrPos(writer.w)) && !old(wrFailed(writer.w));
	ensures to: wrTo(writer.w) == old(wrTo(writer.w)) && (forall w *msgp.Writer {wrTo(w)} :: wrTo(w) == old(wrTo(w)) || wrTo(w) == nil);
	ensures before: forall p int {wrBool(writer.w, p)} :: p < old(wrPos(writer.w)) ==> wrBool(writer.w, p) == old(wrBool(writer.w, p));
	ensures before: forall p int {wrByte(writer.w, p)} :: p < old(wrPos(writer.w)) ==> wrByte(writer.w, p) == old(wrByte(writer.w, p));
	ensures before: forall p int {wrString(writer.w, p)} :: p < old(wrPos(writer.w)) ==> wrString(writer.w, p) == old(wrString(writer.w, p));
	ensures before: forall p int {wrList(writer.w, p)} :: p < old(wrPos(writer.w)) ==> wrList(writer.w, p) == old(wrList(writer.w, p));
}

extern shutdown.FirstFn(f, ctx) (n) { ensures true; }
extern backup.Saver.Save(s, ctx) (w, err) { ensures err == nil ==> w != nil && saverOf(w) == s; }
extern zstd.NewWriter(w, opts) (z, err) { ensures err == nil ==> z != nil && fresh(z) && (isA(w, *writeCounter) ==> zto(z) == saverOf(asA(w, *writeCounter).w)); }
# The first n lists named in a backup's status are the records of the stream.
pred records(w *msgp.Writer, s []string, n int) { forall j int {s[j]} :: 0 <= j && j < n ==> wrBool(w, 4*j) && wrByte(w, 4*j+1) == 1 && wrString(w, 4*j+2) == s[j] && wrList(w, 4*j+3) != nil && wrList(w, 4*j+3).ID == s[j] }
contract backup.Request.Start(req, bg) (id) {
	noterm;
	requires req.DB != nil && req.Dst != nil && listsOK(req.DB.Lists.lists) && running != nil;
	requires unused: forall w *msgp.Writer {wrTo(w)} :: wrTo(w) != req.Dst;
	requires !closed(req.Dst) && !finished(req.Dst) && !complete(req.Dst);
	modifies elems(req.Lists), map(running), all(jobState), all(writeCounter), wrTo, wrPos, wrFailed, wrBuf, wrHolds, wrOut, closed, finished, complete, wrBool, wrByte, wrString, wrList, outHas;
	loop 0 {
		invariant db: job.db == req.DB;
		invariant st: job.status.Errors != nil && fresh(job.status.Errors) && (fresh(job.status.Success) || cap(job.status.Success) == 0) && !job.status.Cancelled;
		invariant to: wrTo(msg.w) == req.Dst && (forall w *msgp.Writer {wrTo(w)} :: w != msg.w ==> wrTo(w) != req.Dst);
		invariant pos: wrFailed(msg.w) || wrPos(msg.w) == 4*len(job.status.Success);
		invariant rec: wrFailed(msg.w) || records(msg.w, job.status.Success, len(job.status.Success));
		invariant each: forall j int {req.Lists[j]} :: 0 <= j && j < $i ==> has(job.status.Errors, req.Lists[j]) || (exists k int {job.status.Success[k]} :: 0 <= k && k < len(job.status.Success) && job.status.Success[k] == req.Lists[j]);
		invariant told: wrFailed(msg.w) ==> (exists j int {req.Lists[j]} :: 0 <= j && j < $i && has(job.status.Errors, req.Lists[j]));
		invariant done: job.status.Lists == len(req.Lists) && job.status.ListsDone == len(job.status.Success);
	}
	ensures writer: !running[id].status.Cancelled && !has(running[id].status.Errors, "saver") && !has(running[id].status.Errors, "compress") ==>
		closed(req.Dst) && (exists w *msgp.Writer {wrTo(w)} :: wrTo(w) == req.Dst);
	ensures stream: !running[id].status.Cancelled && !has(running[id].status.Errors, "saver") && !has(running[id].status.Errors, "compress") ==>
		(forall w *msgp.Writer {wrTo(w)} :: wrTo(w) == req.Dst && !wrFailed(w) ==> complete(req.Dst) && wrOut(w) == wrPos(w) && wrPos(w) == 4*running[id].status.ListsDone+1 && !wrBool(w, 4*running[id].status.ListsDone) && records(w, running[id].status.Success, running[id].status.ListsDone));
	ensures told: !running[id].status.Cancelled && !has(running[id].status.Errors, "saver") && !has(running[id].status.Errors, "compress") ==>
		(forall w *msgp.Writer {wrTo(w)} :: wrTo(w) == req.Dst && wrFailed(w) ==> has(running[id].status.Errors, "finalizing") || (exists j int {req.Lists[j]} :: 0 <= j && j < len(req.Lists) && has(running[id].status.Errors, req.Lists[j])));
	ensures each: !running[id].status.Cancelled && !has(running[id].status.Errors, "saver") && !has(running[id].status.Errors, "compress") ==>
		running[id].status.Lists == len(req.Lists) && running[id].status.ListsDone == len(running[id].status.Success) &&
		(forall j int {req.Lists[j]} :: 0 <= j && j < len(req.Lists) ==> has(running[id].status.Errors, req.Lists[j]) || (exists k int {running[id].status.Success[k]} :: 0 <= k && k < len(running[id].status.Success) && running[id].status.Success[k] == req.Lists[j]));
	ensures done: has(running, id) && running[id].status.Done;
}
