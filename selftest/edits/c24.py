S = "src/segment/stride.rs"
ALL = ["C24"]
MARGIN = """        let head_margin = if start >= 0 {
            start
        } else {
            let mut margin = -start;
            while margin >= span {
                margin -= pitch;
            }
            -margin
        };
"""
TAILM = "let tail_margin = if end < 1 { 1 - end } else { std::cmp::max(1 - end, 1 - span) };"
PHASE = """            let phase = margin.0.rem_euclid(pitch as isize);
            (phase as usize, (phase - margin.0) as usize, offset_margin.0)
"""
HEAD = "            (head_margin, 0, head_margin + 1)\n"
RES = "            tail_reserved_bytes: offset_margin.1.saturating_sub(span) + pitch,\n"
NEXT = """        if let Some(x) = self.segments.last() {
            x.tail() + self.pitch
        } else {
            self.phase.curr + self.span - self.init_state.phase_offset
        }
"""
FWD = """        let max_fwd = next_tail.saturating_sub(self.span);
"""
CLIPFWD = """        let max_fwd = std::cmp::min(max_fwd, len);
"""
CLIPLOOP = """        while next_tail + self.tail_offset_margin <= len + self.span {
            let pos = next_tail.saturating_sub(self.span);
            let len = std::cmp::min(next_tail, len) - pos;
            self.segments.push(Segment { pos, len });

            next_tail += self.pitch;
        }
"""
LOOP = """        while next_tail + self.tail_reserved_bytes <= len {
            let pos = next_tail.saturating_sub(self.span);
            let len = next_tail - pos;
            self.segments.push(Segment { pos, len });

            next_tail += self.pitch;
        }
"""
EOF = """            self.is_eof = true;
            self.init_state.min_bytes_to_escape = std::cmp::min(len, self.init_state.min_bytes_to_escape);
            self.segments.clear(); // TODO: we don't need to remove all
"""
HOLD = """        let n_extra = self.count_segments(next_tail + self.tail_reserved_bytes - (len + self.pitch));
        let n_extra = std::cmp::min(self.segments.len(), n_extra);

        let next_tail = next_tail - n_extra * self.pitch;
        let count = self.segments.len() - n_extra;
"""
MID = """        if next_tail + self.tail_reserved_bytes <= len + self.pitch {
            return self.update_lend_state(next_tail, len, self.segments.len());
        }

"""
BETWEEN = """        if count == 0 && bytes < self.phase.curr {
            // the pitch is too large and the pointer is between two segments
            self.phase.curr -= bytes;
            return (bytes, count);
        }

"""
SHIFT = """            let shift = (bytes - self.phase.curr) % self.pitch;
            if shift == 0 {
                0
            } else {
                self.pitch - shift
            }
"""
LONG = """        self.phase.curr = 0;
        let count = if phase == 0 { count } else { count - 1 };
        let bytes = count * self.pitch + self.phase.prev - phase_offset;
        (bytes, count)
"""
SHORT = """        if count < 16 {
            self.phase.curr = phase;
            return (bytes, count);
        }
"""
STILL = """        if bytes < self.init_state.min_bytes_to_escape {
            // still in the head
            return Ok((0, 0));
        }
"""
OUT = """        if self.init_state.min_bytes_to_escape > 0 {
            self.init_state.min_bytes_to_escape = 0;
            self.segments.clear();
        }
"""
TAKEOFF = """        let phase_offset = std::mem::replace(&mut self.init_state.phase_offset, 0);
        self.phase.prev = self.phase.curr;
"""
COUNT = """        let count = self.count_segments((bytes + phase_offset).saturating_sub(self.phase.curr));
        let count = std::cmp::min(count, self.in_lend.1);
"""
STALE = """        if self.phase.prev != self.phase.curr {
            self.segments.clear();
        }
"""
ATEND = """        if self.is_eof && bytes >= self.in_lend.0 {
            return Ok(self.in_lend);
        }
"""
EDITS = []


def m(name, old, new):
    EDITS.append((name, [(S, old, new)], ALL))


def qt(name, *ed):
    EDITS.append(("q-" + name, [(S, a, b) for a, b in ed], []))


m("empty", "if start >= end {", "if start > end {")
m("margin-gt", MARGIN, MARGIN.replace("margin >= span", "margin > span"))
m("margin-span", MARGIN, MARGIN.replace("margin -= pitch", "margin -= span"))
m("margin-if", MARGIN, MARGIN.replace("while margin", "if margin"))
m("tailm-span", TAILM, "let tail_margin = std::cmp::max(1 - end, -span);")
m("tailm-end", TAILM, "let tail_margin = if end < 1 { -end } else { std::cmp::max(1 - end, 1 - span) };")
m("tailm-one", TAILM, "let tail_margin = 1 - span;")
m("tailm-min", TAILM, "let tail_margin = 1 - end;")
m("phase-rem", PHASE, PHASE.replace("margin.0.rem_euclid(pitch as isize)", "(-margin.0) % pitch as isize"))
m("phase-off", PHASE, PHASE.replace("(phase - margin.0) as usize", "(-margin.0) as usize"))
# only keeps more than is needed
EDITS.append(("phase-escape", [(S, PHASE, PHASE.replace("offset_margin.0)", "1)"))], None))
m("head-zero", HEAD, HEAD.replace("(head_margin, 0,", "(head_margin % pitch, 0,"))
m("head-escape", HEAD, HEAD.replace("head_margin + 1", "head_margin"))
m("reserve", RES, RES.replace("offset_margin.1.saturating_sub(span) + pitch", "pitch"))
# only holds back more than is needed
EDITS.append(("reserve-less", [(S, RES, RES.replace("+ pitch", "+ pitch - 1"))], None))
# enough for what is cut off at the end
EDITS.append(("reserve-none", [(S, RES, RES.replace(" + pitch", ""))], None))
m("next-span", NEXT, NEXT.replace("x.tail() + self.pitch", "x.tail() + self.span"))
m("next-off", NEXT, NEXT.replace(" - self.init_state.phase_offset", ""))
m("next-pos", NEXT, NEXT.replace("x.tail() + self.pitch", "x.pos + self.pitch + self.span"))
m("fwd-pitch", FWD, FWD.replace("self.span", "self.pitch"))
m("fwd-none", FWD, "        let max_fwd = next_tail;\n")
m("clip-none", CLIPFWD, "")
m("end-lt", CLIPLOOP, CLIPLOOP.replace("<= len", "< len"))
m("end-all", CLIPLOOP, CLIPLOOP.replace("next_tail + self.tail_offset_margin <= len + self.span", "next_tail <= len"))
m("end-pitch", CLIPLOOP, CLIPLOOP.replace("next_tail += self.pitch", "next_tail += self.span"))
m("end-cut", CLIPLOOP, CLIPLOOP.replace("std::cmp::min(next_tail, len) - pos", "next_tail - pos"))
m("end-pos", CLIPLOOP, CLIPLOOP.replace("next_tail.saturating_sub(self.span)", "next_tail.saturating_sub(self.pitch)"))
m("more-pitch", LOOP, LOOP.replace("next_tail += self.pitch", "next_tail += self.span"))
m("more-span", LOOP, LOOP.replace("let len = next_tail - pos;", "let len = self.span;"))
m("more-early", LOOP, LOOP.replace("next_tail + self.tail_reserved_bytes <= len", "next_tail <= len"))
m("eof-clear", EOF, EOF.replace("            self.segments.clear(); // TODO: we don't need to remove all\n", ""))
m("eof-flag", EOF, EOF.replace("            self.is_eof = true;\n", ""))
m("eof-escape", EOF, EOF.replace("            self.init_state.min_bytes_to_escape = std::cmp::min(len, self.init_state.min_bytes_to_escape);\n", ""))
m("hold-none", HOLD, "        let count = self.segments.len();\n")
m("hold-less", HOLD, HOLD.replace("next_tail + self.tail_reserved_bytes - (len + self.pitch)", "next_tail - len"))
m("hold-clamp", HOLD, HOLD.replace("        let n_extra = std::cmp::min(self.segments.len(), n_extra);\n", ""))
m("hold-tail", HOLD, HOLD.replace("        let next_tail = next_tail - n_extra * self.pitch;\n", ""))
m("hold-old", HOLD, HOLD.replace("next_tail + self.tail_reserved_bytes - (len + self.pitch)", "next_tail - len"))
m("between-none", BETWEEN, BETWEEN.replace("            self.phase.curr -= bytes;\n", ""))
m("shift-plain", SHIFT, "            (bytes - self.phase.curr) % self.pitch\n")
m("shift-zero", SHIFT, "            self.pitch - (bytes - self.phase.curr) % self.pitch\n")
m("short-always", SHORT, SHORT.replace("            self.phase.curr = phase;\n", ""))
m("long-count", LONG, LONG.replace("if phase == 0 { count } else { count - 1 }", "count"))
m("long-less", LONG, LONG.replace("if phase == 0 { count } else { count - 1 }", "count - 1"))
m("long-prev", LONG, LONG.replace(" + self.phase.prev", ""))
m("long-off", LONG, LONG.replace(" - phase_offset", ""))
m("long-curr", LONG, LONG.replace("self.phase.curr = 0;", "self.phase.curr = phase;"))
m("still-none", STILL, "")
m("out-clear", OUT, OUT.replace("            self.segments.clear();\n", ""))
m("out-escape", OUT, OUT.replace("            self.init_state.min_bytes_to_escape = 0;\n", ""))
m("off-kept", TAKEOFF, TAKEOFF.replace("std::mem::replace(&mut self.init_state.phase_offset, 0)", "self.init_state.phase_offset"))
m("prev-none", TAKEOFF, TAKEOFF.replace("        self.phase.prev = self.phase.curr;\n", ""))
m("count-floor", "        (len + self.pitch - 1) / self.pitch\n", "        len / self.pitch\n")
m("count-off", COUNT, COUNT.replace("(bytes + phase_offset)", "bytes"))
m("count-curr", COUNT, COUNT.replace("(bytes + phase_offset).saturating_sub(self.phase.curr)", "bytes + phase_offset"))
m("count-clamp", COUNT, COUNT.replace("        let count = std::cmp::min(count, self.in_lend.1);\n", ""))
m("stale", STALE, "")
m("atend", ATEND, "")
m("atend-lt", ATEND, ATEND.replace("self.is_eof && bytes >= self.in_lend.0", "bytes >= self.in_lend.0"))
m("slices", "        &self.segments[..self.in_lend.1]\n", "        &self.segments[..]\n")
qt("div-ceil", ("        (len + self.pitch - 1) / self.pitch\n", "        len.div_ceil(self.pitch)\n"))
qt("margin-loop", (MARGIN, """        let mut head_margin = start;
        while head_margin + span <= 0 {
            head_margin += pitch;
        }
"""))
qt("margin-mod", (MARGIN, """        let head_margin = if start >= 0 {
            start
        } else {
            let over = std::cmp::max(0, -start - span + 1);
            start + (over + pitch - 1) / pitch * pitch
        };
"""))
qt("tailm", (TAILM, "let tail_margin = if end < 1 { 1 - end } else if 1 - end > 1 - span { 1 - end } else { 1 - span };"))
qt("next-match", (NEXT, """        match self.segments.last() {
            Some(x) => x.pos + x.len + self.pitch,
            None => self.phase.curr + self.span - self.init_state.phase_offset,
        }
"""))
qt("next-map", (NEXT, """        let first = self.phase.curr + self.span - self.init_state.phase_offset;
        self.segments.last().map_or(first, |x| x.tail() + self.pitch)
"""))
qt("fwd-if", (FWD, "        let max_fwd = if next_tail > self.span { next_tail - self.span } else { 0 };\n"))
qt("loop-break", (LOOP, """        loop {
            if next_tail + self.tail_reserved_bytes > len {
                break;
            }
            let pos = next_tail.saturating_sub(self.span);
            self.segments.push(Segment {
                pos,
                len: next_tail - pos,
            });
            next_tail += self.pitch;
        }
"""))
qt("cliploop", (CLIPLOOP, """        let limit = len + self.span;
        while next_tail + self.tail_offset_margin <= limit {
            let pos = if next_tail < self.span { 0 } else { next_tail - self.span };
            let end = next_tail.min(len);
            next_tail += self.pitch;
            self.segments.push(Segment { pos, len: end - pos });
        }
"""))
qt("push-helper", (CLIPLOOP, """        while next_tail + self.tail_offset_margin <= len + self.span {
            self.push_clipped(next_tail, len);
            next_tail += self.pitch;
        }
"""), ("    fn extend_segments_with_clip(", """    fn push_clipped(&mut self, tail: usize, limit: usize) {
        let pos = tail.saturating_sub(self.span);
        let len = std::cmp::min(tail, limit) - pos;
        self.segments.push(Segment { pos, len });
    }

    fn extend_segments_with_clip("""))
qt("hold-min", (HOLD, """        let n_extra = self.count_segments(next_tail + self.tail_reserved_bytes - (len + self.pitch)).min(self.segments.len());
        let count = self.segments.len() - n_extra;
        let next_tail = next_tail - n_extra * self.pitch;
"""))
qt("mid-none", (MID, ""), (HOLD, HOLD.replace("next_tail + self.tail_reserved_bytes - (len + self.pitch)", "(next_tail + self.tail_reserved_bytes).saturating_sub(len + self.pitch)")))
qt("shift-rem", (SHIFT, """            let past = bytes - self.phase.curr;
            self.count_segments(past) * self.pitch - past
"""))
qt("short-swap", (SHORT + "\n        // long enough; we don't shift the phase. truncate the last segment\n" + LONG, """        if count >= 16 {
            // long enough; we don't shift the phase. truncate the last segment
            let count = if phase != 0 { count - 1 } else { count };
            self.phase.curr = 0;
            return (count * self.pitch + self.phase.prev - phase_offset, count);
        }

        self.phase.curr = phase;
        (bytes, count)
"""))
qt("always-short", (SHORT + "\n        // long enough; we don't shift the phase. truncate the last segment\n" + LONG, """        self.phase.curr = phase;
        let _ = phase_offset;
        (bytes, count)
"""))
qt("out", (OUT, """        let first = std::mem::replace(&mut self.init_state.min_bytes_to_escape, 0);
        if first != 0 {
            self.segments.clear();
        }
"""))
qt("take", (TAKEOFF, """        let phase_offset = std::mem::take(&mut self.init_state.phase_offset);
        self.phase.prev = self.phase.curr;
"""))
qt("count-if", (COUNT, """        let at = bytes + phase_offset;
        let count = if at > self.phase.curr {
            self.count_segments(at - self.phase.curr).min(self.in_lend.1)
        } else {
            0
        };
"""))
qt("stale-eq", (STALE, """        if self.phase.prev == self.phase.curr {
            return Ok((bytes, count));
        }
        self.segments.clear();
"""))
qt("stale-always", (STALE, "        self.segments.clear();\n"))
