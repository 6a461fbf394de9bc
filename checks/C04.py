"""Decides, per path of each method, how much the dropped-span counter changes (only through atomic read-modify-write
operations), what the flush observer is told, and - for the recorders and the connection stream - that each span refused
by the buffer is counted once, that a count taken for a report is written into it, and that it is put back when the
report is lost."""
from lib import *
from contract import *
from checks.counters import Effect, counter_cell
import ir
RULES = {
    "atomic-counter": ("the counter is only changed by atomic read-modify-write operations and only read atomically", 6),
    "effect": ("each operation changes the counter by exactly what it is asked to", 8),
    "observer": ("the flush observer is told exactly once, with the number of spans at hand", 3),
    "refused-span": ("a span refused by the buffer is counted as dropped once, an accepted one never", 4),
    "report-count": ("a count taken from the counter is the one written into the report", 3),
    "put-back": ("a count whose report is lost is put back, and the report's spans are counted as dropped", 4),
    "sent-once": ("a span finished by the connection is counted as sent exactly once", 2),
}
OBS = "lightstep::MetricsObserver::"
MT = "lightstep::MetricsTracker::"

def tracker(R):
    u = ir.view("metrics", [r"lightstep::MetricsTracker::.*", r"lightstep::CountingMetricsObserver::[^~]*"])
    m = lambda n: one(u, MT + n)
    k = counter_cell(u, m("num_dropped_spans"))
    def method(name, want, calls, ret=None):
        f = m(name); t = this_arg(f); c = cell(t, k); n = arg(t + 1)
        def ob(rule, i, ok, msg): R.ob(rule, f.q, ok, f.loc(i), msg)
        E = None
        def init(st): st.set("told", 0)
        def on_call(st, i, cc):
            q = cname(u, i)
            if q.startswith(OBS):
                if st.checking:
                    R.saw("observer calls")
                    ob("observer", i, q == OBS + str(calls), "the observer is told something else")
                    if calls and len(i.ops) > 1: ob("observer", i, st.eq(sub(st.lin(i.ops[1]), atom(n))), "the observer is told another number than asked for")
                st.set("told", min(2, st.get("told") + 1))
                return True
        def on_ret(st, i, r):
            if not st.checking: return
            R.saw("exits"); R.ob("atomic-counter", f.q, True)
            d = E.delta(st, c)
            if want == "take": ob("effect", i, r is not None and st.eq(add(d, r)), "the counter is not reduced by exactly the count returned; facts: " + facts(st))
            elif want == "read": ob("effect", i, st.eq(d), "reading the counter changes it")
            else: ob("effect", i, st.eq(sub(d, atom(n) if want == "n" else {})), "the counter does not change by exactly the number given; facts: " + facts(st))
            # nothing to tell for zero spans
            nothing = want == "n" and st.eq(atom(n))
            ob("observer", i, st.get("told") == (1 if calls else 0) or nothing, "the observer is told %d times instead of %d" % (st.get("told"), 1 if calls else 0))
        E = Effect(u, f, [c], lambda i, ok, msg: R.ob("atomic-counter", f.q, ok, f.loc(i), msg), on_call, on_ret, init)
        E.run(); R.saw("methods analysed")
    method("OnSpansDropped", "n", "OnSpansDropped")
    method("OnSpansSent", None, "OnSpansSent")
    method("OnFlush", None, "OnFlush")
    method("ConsumeDroppedSpans", "take", None)
    method("UnconsumeDroppedSpans", "n", None)
    method("num_dropped_spans", "read", None)
    # the counting observer
    rec = [e for r in u.records if r["q"] == "lightstep::CountingMetricsObserver" for e in r["els"] if e["k"] == "DW_TAG_member"] or \
          [e for e in (ir.program().record("lightstep::CountingMetricsObserver") or {"els": []})["els"] if e["k"] == "DW_TAG_member"]
    offs = {e["n"]: e["off"] for e in rec}
    for name, fld, byn in (("OnSpansSent", "num_spans_sent", 1), ("OnSpansDropped", "num_spans_dropped", 1), ("OnFlush", "num_flushes", 0)):
        if fld not in offs: raise Broken("CountingMetricsObserver::%s not found" % fld)
        f = one(u, "lightstep::CountingMetricsObserver::" + name); t = this_arg(f)
        cells = {x: cell(t, o) for x, o in offs.items()}
        E = None
        def on_ret(st, i, r, f=f, fld=fld, byn=byn, cells=cells, t=t):
            if not st.checking: return
            R.ob("atomic-counter", f.q, True)
            for x, c in cells.items():
                want = (atom(arg(t + 1)) if byn else const(1)) if x == fld else {}
                R.ob("effect", f.q + ": " + x, st.eq(sub(E.delta(st, c), want)), f.loc(i), "the number of " + x + " does not change by what was reported")
        E = Effect(u, f, list(cells.values()), lambda i, ok, msg, f=f: R.ob("atomic-counter", f.q, ok, f.loc(i), msg), None, on_ret)
        E.run(); R.saw("methods analysed")

BARR = [r"lightstep::(MetricsTracker|CircularBuffer|ChainedStream|Logger|ReportRequest|ReportBuilder|EmbeddedMetricsMessage|FragmentArrayInputStream|SpanStream|CircularBufferRange)::.*",
        r"lightstep::(WriteReportRequestSpansHeader|WriteHttpChunkHeader|LogReportResponse|MakeFragment)",
        r"std::swap", r"lightstep::collector::.*", r"google::.*"]

class Users:
    def __init__(self, R):
        self.R = R
        ir.program().need("recorder/manual_recorder.cpp", "recorder/auto_recorder.cpp", "recorder/stream_recorder/stream_recorder.cpp", "recorder/stream_recorder/connection_stream.cpp", "recorder/legacy_manual_recorder.cpp")
        self.u = ir.view("dropusers", [r"lightstep::(StreamRecorder|ManualRecorder|AutoRecorder)::RecordSpan", r"lightstep::ManualRecorder::(OnFailure|OnSuccess|FlushWithTimeout)",
                                       r"lightstep::LegacyManualRecorder::OnFailure", r"lightstep::AutoRecorder::FlushOne",
                                       r"lightstep::ConnectionStream::(Reset|Flush|InitializeStream)"], barriers=BARR)
    def rec(self, cls, want):
        r = ir.program().record("lightstep::" + cls)
        if r is None: raise Broken("class %s not found" % cls)
        h = [e["off"] for e in r["els"] if e["k"] == "DW_TAG_member" and want(e)]
        if len(h) != 1: raise Broken("%s: field not identified" % cls)
        return h[0]

def record_span(U, cls):
    """StreamRecorder, ManualRecorder: outcome of the last attempt to buffer decides"""
    R = U.R; u = U.u; f = one(u, "lightstep::%s::RecordSpan" % cls)
    def init(st):
        for k in ("drop", "tried"): st.set(k, 0)
    def on_call(st, i, c):
        q = cname(u, i)
        if q == "lightstep::CircularBuffer::Add":
            st.set("tried", 1); st.assign("res", st.ai.v.lin(i.id)); return None
        if q == MT + "OnSpansDropped":
            if st.checking:
                R.ob("refused-span", f.q, st.get("tried") == 1 and st.eq(atom("res")), f.loc(i), "a span is counted as dropped although the buffer took it")
                R.ob("refused-span", f.q, st.eq(add(st.lin(i.ops[1]), const(-1))), f.loc(i), "one refused span is not counted as one")
            st.set("drop", min(2, st.get("drop") + 1)); return True
        if q in (MT + "ConsumeDroppedSpans", MT + "UnconsumeDroppedSpans"):
            if st.checking: R.ob("refused-span", f.q, False, f.loc(i), "recording a span takes or restores counts"); return True
    def on_ret(st, i, r):
        if not st.checking: return
        R.saw("exits")
        taken = st.get("tried") == 1 and st.eq(add(atom("res"), const(-1)))
        refused = not st.get("tried") or st.eq(atom("res"))
        R.ob("refused-span", f.q, (taken and st.get("drop") == 0) or (refused and st.get("drop") == 1), f.loc(i), "a span that could not be buffered is counted as dropped %d times" % st.get("drop") if refused else "whether the span was buffered is not examined")
    Mem(f, init=init, on_call=on_call, on_ret=on_ret).run(); R.saw("methods analysed")

LOCK = lambda c: "gthread_mutex_lock" in c
UNLOCK = lambda c: "gthread_mutex_unlock" in c

def auto_record(U):
    R = U.R; u = U.u; f = one(u, "lightstep::AutoRecorder::RecordSpan"); t = this_arg(f)
    off = U.rec("AutoRecorder", lambda e: "dropped" in e["n"]); d = cell(t, off)
    def init(st):
        for k in ("told", "added", "caught"): st.set(k, 0)
    def on_call(st, i, c):
        q = cname(u, i)
        if LOCK(c):
            st.havoc(d); st.havoc("d0"); st.poly.add_eq(sub(atom(d), atom("d0"))); return True
        if UNLOCK(c):
            st.assign("dd", sub(atom(d), atom("d0"))); return True
        if q == OBS + "OnSpansDropped":
            if st.checking: R.ob("refused-span", f.q, st.eq(add(st.lin(i.ops[1]), const(-1))), f.loc(i), "one refused span is reported as another number")
            st.set("told", min(2, st.get("told") + 1)); return True
        if q == "lightstep::ReportBuilder::AddSpan": st.set("added", min(2, st.get("added") + 1)); return True
        if q.startswith("__cxa_begin_catch"): st.set("caught", 1)
        return None if not q.startswith("lightstep::") else True
    def on_ret(st, i, r):
        if not st.checking or st.get("caught"): return
        R.saw("exits")
        n = st.get("added")
        R.ob("refused-span", f.q, (n == 1 and st.get("told") == 0 and st.eq(atom("dd"))) or (n == 0 and st.get("told") == 1 and st.eq(add(atom("dd"), const(-1)))), f.loc(i),
             "a span is not either kept or counted once and reported once; facts: " + facts(st))
    Mem(f, init=init, on_call=on_call, on_ret=on_ret).run(); R.saw("methods analysed")

def auto_flush(U):
    R = U.R; u = U.u; f = one(u, "lightstep::AutoRecorder::FlushOne"); t = this_arg(f)
    off = U.rec("AutoRecorder", lambda e: "dropped" in e["n"]); d = cell(t, off)
    def init(st): st.set("phase", 0); st.set("dropped", 0); st.set("sent", 0)
    def on_call(st, i, c):
        q = cname(u, i)
        if LOCK(c):
            st.havoc(d); st.havoc("d0"); st.poly.add_eq(sub(atom(d), atom("d0"))); st.set("in", 1); return True
        if UNLOCK(c):
            if st.get("in") and st.get("took") == 1 and not st.get("unw"):
                if st.checking: R.ob("report-count", f.q, st.eq(atom(d)), f.loc(i), "a count given to a report also stays counted: it is reported twice; facts: " + facts(st))
                st.set("took", 2)
            if st.get("in") and st.get("asked") == 1:
                st.assign("back", sub(atom(d), atom("d0")))
            st.set("in", 0); return True
        if q == "lightstep::ReportBuilder::num_pending_spans":
            st.assign("pend", st.ai.v.lin(i.id)); return True
        if q == "lightstep::ReportBuilder::set_pending_client_dropped_spans":
            if st.checking:
                R.ob("report-count", f.q, st.get("in") == 1 and st.eq(sub(st.lin(i.ops[1]), atom("d0"))), f.loc(i), "the count written into the report is not the count of dropped spans; facts: " + facts(st))
            st.assign("saved", st.lin(i.ops[1])); st.set("took", 1); return True
        if q == OBS + "OnSpansDropped":
            if st.checking: R.ob("put-back", f.q, st.get("asked") == 1 and st.eq(sub(st.lin(i.ops[1]), atom("pend"))), f.loc(i), "the observer is told another number than the spans of the lost report")
            st.set("dropped", min(2, st.get("dropped") + 1)); return True
        if q == "lightstep::SyncTransporter::Send":
            st.set("asked", 1); st.assign("ok", {}); st.havoc("ok"); return True
        if q.endswith("expected::operator bool"):
            st.assign("ok", st.ai.v.lin(i.id)); st.set("res", 1); return True
        return True if q.startswith(("lightstep::", "google::", "opentracing::", "std::swap")) else None
    def on_ret(st, i, r):
        if not st.checking: return
        R.saw("exits")
        if not st.get("asked"):
            R.ob("report-count", f.q, st.get("took") is None, f.loc(i), "a count taken for a report is lost because nothing is sent"); return
        lost = st.eq(atom("ok")); fine = st.eq(add(atom("ok"), const(-1)))
        R.ob("report-count", f.q, st.get("took") == 2, f.loc(i), "a report is sent without the count of dropped spans")
        R.ob("put-back", f.q, (fine and st.get("dropped") == 0 and st.eq(atom("back"))) or (lost and st.get("dropped") == 1 and st.eq(sub(atom("back"), add(atom("saved"), atom("pend"))))), f.loc(i),
             "after the send %s the counts are not restored as they should; facts: %s" % ("failed" if lost else "succeeded", facts(st)))
    def on_instr(st, i):
        if i.op == "landingpad": st.set("unw", 1)
    Mem(f, init=init, on_call=on_call, on_ret=on_ret, on_instr=on_instr, max_steps=60000).run(); R.saw("methods analysed")

def manual_outcome(U):
    R = U.R; u = U.u
    for name, want in (("OnFailure", {"OnSpansDropped": "spans", "UnconsumeDroppedSpans": "count"}), ("OnSuccess", {"OnSpansSent": "spans"})):
        f = one(u, "lightstep::ManualRecorder::" + name); rule = "put-back" if name == "OnFailure" else "sent-once"
        def init(st):
            for k in ("OnSpansDropped", "UnconsumeDroppedSpans", "OnSpansSent"): st.set(k, 0)
            st.poly.add_ne(atom(arg(this_arg(f) + 1)))
        def on_call(st, i, c):
            q = cname(u, i)
            if q == "__dynamic_cast": st.assign("rr", st.ai.v.lin(i.id)); return True
            for n, g in (("num_spans", "spans"), ("num_dropped_spans", "count")):
                if q == "lightstep::ReportRequest::" + n:
                    if st.get(g): st.poly.add_eq(sub(atom(g), st.ai.v.lin(i.id)))
                    else: st.assign(g, st.ai.v.lin(i.id)); st.set(g, 1)
                    return True
            if q.startswith(MT):
                n = q[len(MT):]
                if st.checking:
                    R.ob(rule, f.q, n in want, f.loc(i), n + " is called for this outcome")
                    if n in want: R.ob(rule, f.q, st.get(want[n]) == 1 and st.eq(sub(st.lin(i.ops[1]), atom(want[n]))), f.loc(i), n + " is told another number than the report's")
                st.set(n, min(2, (st.get(n) or 0) + 1)); return True
            return None
        def on_ret(st, i, r):
            if not st.checking: return
            R.saw("exits")
            if st.eq(atom("rr")): return
            vt = atom(cell(this_arg(f) + 1, 0)); rr = add(atom("@_ZTVN9lightstep13ReportRequestE"), const(16))
            if st.ne(sub(vt, rr)) and not any(st.get(n) for n in want): return       # not a report of this recorder
            R.ob(rule, f.q, all(st.get(n) == 1 for n in want), f.loc(i), "the outcome of a report is not accounted for exactly once")
        Mem(f, init=init, on_call=on_call, on_ret=on_ret, partition=True).run(); R.saw("methods analysed")

def manual_flush(U):
    R = U.R; u = U.u; f = one(u, "lightstep::ManualRecorder::FlushWithTimeout")
    def init(st):
        for k in ("took", "given", "sent", "caught"): st.set(k, 0)
    def on_call(st, i, c):
        q = cname(u, i)
        if q == MT + "ConsumeDroppedSpans":
            if st.checking: R.ob("report-count", f.q, st.get("took") == 0, f.loc(i), "the count is taken twice for one report")
            st.set("took", 1); st.assign("n", st.ai.v.lin(i.id)); return True
        if q == "lightstep::ReportRequest::ReportRequest":
            if st.checking: R.ob("report-count", f.q, st.get("took") == 1 and st.eq(sub(st.lin(i.ops[2]), atom("n"))), f.loc(i), "the report is not given the count taken for it")
            st.set("given", 1); return True
        if q == "lightstep::ReportRequest::num_dropped_spans":
            if st.get("given"): st.poly.add_eq(sub(st.ai.v.lin(i.id), atom("n")))
            return True
        if q == MT + "UnconsumeDroppedSpans":
            if st.eq(sub(st.lin(i.ops[1]), atom("n"))): st.set("took", 0)
            return True
        if q.startswith("lightstep::AsyncTransporter::"): st.set("sent", 1); return None
        if q == "__cxa_begin_catch": st.set("caught", 1)
    def on_ret(st, i, r):
        if not st.checking or st.get("caught"): return
        R.saw("exits")
        R.ob("report-count", f.q, st.get("sent") == 1 or st.get("took") == 0 or st.eq(atom("n")), f.loc(i), "a count taken for a report that is not sent is lost; facts: " + facts(st))
    Mem(f, init=init, on_call=on_call, on_ret=on_ret).run(); R.saw("methods analysed")

def legacy_failure(U):
    R = U.R; u = U.u; f = one(u, "lightstep::LegacyManualRecorder::OnFailure"); t = this_arg(f)
    d = cell(t, U.rec("LegacyManualRecorder", lambda e: e["n"].startswith("dropped")))
    sd = cell(t, U.rec("LegacyManualRecorder", lambda e: e["n"].startswith("saved_dropped")))
    sp = cell(t, U.rec("LegacyManualRecorder", lambda e: e["n"].startswith("saved_pending")))
    def init(st):
        for c, g in ((d, "d0"), (sd, "sd0"), (sp, "sp0")): st.poly.add_eq(sub(atom(c), atom(g)))
        st.set("told", 0)
    def on_call(st, i, c):
        q = cname(u, i)
        if q == OBS + "OnSpansDropped":
            if st.checking: R.ob("put-back", f.q, st.eq(sub(st.lin(i.ops[1]), atom("sp0"))), f.loc(i), "the observer is told another number than the spans of the lost report")
            st.set("told", min(2, st.get("told") + 1))
        return True if q.startswith(("lightstep::", "google::", "std::error_code")) else None
    def on_ret(st, i, r):
        if not st.checking: return
        R.saw("exits")
        R.ob("put-back", f.q, st.get("told") == 1 and st.eq(sub(atom(d), add(atom("d0"), add(atom("sd0"), atom("sp0"))))), f.loc(i), "the lost report's spans and its count are not added back; facts: " + facts(st))
    Mem(f, init=init, on_call=on_call, on_ret=on_ret).run(); R.saw("methods analysed")

NFR = "lightstep::FragmentInputStream::num_fragments"
def connection(U):
    R = U.R; u = U.u
    rem_off = U.rec("ConnectionStream", lambda e: "unique_ptr" in e["t"] and "ChainedStream" in e["t"])
    hdr_off = U.rec("ConnectionStream", lambda e: "FragmentArrayInputStream" in e["t"] and "header" in e["n"])
    def metrics_counts(st, i, q, f):
        if q == "lightstep::EmbeddedMetricsMessage::num_dropped_spans": st.assign("emb", st.ai.v.lin(i.id)); st.set("emb", 1); return True
        if q == MT + "ConsumeDroppedSpans":
            if st.checking: R.ob("report-count", f.q, st.get("took", 0) == 0, f.loc(i), "the count is taken twice for one report")
            st.set("took", 1); st.assign("n", st.ai.v.lin(i.id)); return True
        if q == "lightstep::EmbeddedMetricsMessage::set_num_dropped_spans":
            if st.checking: R.ob("report-count", f.q, st.get("took") == 1 and st.eq(sub(st.lin(i.ops[1]), atom("n"))), f.loc(i), "the count written into the report is not the one taken from the counter")
            st.set("written", 1); return True
        if q == "lightstep::EmbeddedMetricsMessage::MakeFragment":
            if st.checking: R.ob("report-count", f.q, st.get("written") == 1, f.loc(i), "the report is built before its count is known")
            st.set("built", 1); return True
        return None
    # InitializeStream
    f = one(u, "lightstep::ConnectionStream::InitializeStream")
    def on_call(st, i, c):
        q = cname(u, i)
        r = metrics_counts(st, i, q, f)
        return r if r is not None else (True if q.startswith("lightstep::") else None)
    def on_ret(st, i, r):
        if st.checking: R.saw("exits"); R.ob("report-count", f.q, st.get("built") == 1 and st.get("took") == 1, f.loc(i), "a report is prepared without its count of dropped spans")
    Mem(f, on_call=on_call, on_ret=on_ret).run()
    # Reset
    g = one(u, "lightstep::ConnectionStream::Reset"); t = this_arg(g); rem = cell(t, rem_off); hdr = add(atom(arg(t)), const(hdr_off))
    def init(st): st.poly.add_eq(sub(atom(rem), atom("rem0"))); st.set("back", 0); st.set("drop", 0)
    def on_call2(st, i, c):
        q = cname(u, i)
        if q == NFR:
            r = st.ai.v.lin(i.id); st.poly.add_ge(r)
            who = "hdr" if st.eq(sub(st.lin(i.ops[0]), hdr)) else "rem" if is_const(st.poly.reduce(sub(st.lin(i.ops[0]), atom("rem0")))) else None
            if who:
                if st.get("n" + who): st.poly.add_eq(sub(r, atom("n" + who)))
                else: st.assign("n" + who, r); st.set("n" + who, 1)
            return True
        if q == MT + "UnconsumeDroppedSpans":
            if st.checking:
                R.ob("put-back", g.q, st.get("emb") == 1 and st.eq(sub(st.lin(i.ops[1]), atom("emb"))), g.loc(i), "another number than the unsent report's count is put back")
                R.ob("put-back", g.q, st.get("took", 0) == 0, g.loc(i), "the count is put back after the next one was taken")
                R.ob("put-back", g.q, st.get("nhdr") == 1 and st.ge(add(atom("nhdr"), const(-1))), g.loc(i), "the count of a report that was sent is put back")
            st.set("back", min(2, st.get("back") + 1)); return True
        if q == MT + "OnSpansDropped":
            if st.checking:
                R.ob("put-back", g.q, st.eq(add(st.lin(i.ops[1]), const(-1))), g.loc(i), "one unfinished span is counted as another number")
                R.ob("put-back", g.q, st.get("nrem") == 1 and st.ge(add(atom("nrem"), const(-1))), g.loc(i), "a span is counted as dropped although it was sent or there is none")
            st.set("drop", min(2, st.get("drop") + 1)); return True
        r = metrics_counts(st, i, q, g)
        return r if r is not None else (True if q.startswith("lightstep::") else None)
    def on_ret2(st, i, r):
        if not st.checking: return
        R.saw("exits")
        unsent = not (st.get("nhdr") == 1 and st.eq(atom("nhdr")))
        R.ob("put-back", g.q, st.get("back") == (1 if unsent else 0), g.loc(i), "the count of a report whose header was not sent completely is not put back exactly once")
        left = not (st.eq(atom("rem0")) or (st.get("nrem") == 1 and st.eq(atom("nrem"))))
        R.ob("put-back", g.q, st.get("drop") == (1 if left else 0), g.loc(i), "a span the connection did not finish is not counted as dropped exactly once; facts: " + facts(st))
        R.ob("report-count", g.q, st.get("built") == 1, g.loc(i), "the connection is not prepared for a new report")
    Mem(g, init=init, on_call=on_call2, on_ret=on_ret2).run()
    # Flush
    h = one(u, "lightstep::ConnectionStream::Flush"); t = this_arg(h); rem3 = cell(t, rem_off)
    def init3(st): st.poly.add_eq(sub(atom(rem3), atom("rem0"))); st.set("sent", 0); st.set("w", 0)
    def on_call3(st, i, c):
        q = cname(u, i)
        if q == NFR:
            r = st.ai.v.lin(i.id); st.poly.add_ge(r)
            if st.get("w") and is_const(st.poly.reduce(sub(st.lin(i.ops[0]), atom("rem0")))):
                st.assign("nrem", r); st.set("nrem", 1)
            return True
        if q == MT + "OnSpansSent":
            if st.checking:
                R.ob("sent-once", h.q, st.eq(add(st.lin(i.ops[1]), const(-1))), h.loc(i), "one finished span is counted as another number")
                R.ob("sent-once", h.q, st.get("w") == 1 and st.get("nrem") == 1 and st.eq(atom("nrem")), h.loc(i), "a span is counted as sent although it was not finished")
            st.set("sent", min(2, st.get("sent") + 1)); return True
        if q == "": st.set("w", 1); return True      # the writer
        return True if q.startswith("lightstep::") else None
    def on_ret3(st, i, r):
        if not st.checking: return
        R.saw("exits")
        none = st.eq(atom("rem0")); unf = st.get("nrem") == 1 and st.ge(add(atom("nrem"), const(-1))); fin = st.get("nrem") == 1 and st.eq(atom("nrem"))
        R.ob("sent-once", h.q, (st.get("sent") == 0 and (none or unf)) or (st.get("sent") == 1 and fin), h.loc(i), "a span finished by this connection is not counted as sent exactly once; facts: " + facts(st))
    Mem(h, init=init3, on_call=on_call3, on_ret=on_ret3).run()
    R.saw("methods analysed", 3)

def check(R):
    for k, (t, n) in RULES.items(): R.rule(k, t, n)
    tracker(R)
    U = Users(R)
    for c in ("StreamRecorder", "ManualRecorder"): record_span(U, c)
    auto_record(U); auto_flush(U); manual_outcome(U); manual_flush(U); legacy_failure(U); connection(U)
    R.assume("exceptions of user-supplied transports and allocation failures are outside the accounting")
    R.assume("ReportRequest::num_dropped_spans returns what the report was constructed with")
