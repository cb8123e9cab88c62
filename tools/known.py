#!/usr/bin/env python3
"""Writes known_findings.json: the defects that are recorded and not repaired
(each with the one input that shows it) and the repaired ones."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AUTO = {"X0": 9223372036854775807, "X1": -9223372036854775808}
findings = [
 dict(property="C12", sig="missing-sub",
      what="a subquery's resolution gets no time units when its colon has a space before it and none after it (up[5m :1): the colon is taken as part of the completion prefix, so the parser has not seen it",
      case={"X": {"up": {"common": ["c1"]}}, "Q": [
          {"S": "up", "K": "metric", "Pre": ""}, {"S": "[", "K": "punct", "Pre": ""}, {"S": "5m", "K": "units", "Pre": ""},
          {"S": ":", "K": "punct", "Pre": " "}, {"S": "1s", "K": "sub", "Pre": ""}, {"S": "]", "K": "punct", "Pre": ""}],
          "Cuts": [0, -1, 0, -1, 1, -1], "Fresh": True, "After": ""}),
 dict(property="C13", sig="unsound-unary-op",
      what="in the parentheses right after group_left or group_right the completer offers what may start an expression (+, -, metrics, functions); Prometheus takes only a list of label names there (pinned by TestPromQLSyntaxCompleter's golden suggestions)",
      case=None),
 dict(property="C19", sig="onerow",
      what="EvenlySpacedTicks puts two range ticks on one row: it looks for duplicates by comparing a row with the inverted row of the previous tick (pinned by the golden 4x10 graph)",
      case={"Series": None, "Prev": {"X0": 0, "X1": 1000, "Y0": -1, "Y1": 1}, "Rows": 12, "Cols": 6, "DomD": 1, "RngD": 1, "Line": 1, "Scale": 0, "DomLbl": 0, "RngLbl": 1}),
 dict(property="C19", sig="lastrow",
      what="EvenlySpacedTicks drops the range's last tick when the previous tick's inverted row happens to equal its row (same cause as the ticks sharing a row; pinned by the golden 4x10 graph)",
      case={"Series": [{"ID": 1, "Pts": None}, {"ID": 2, "Pts": [{"X": 0, "Y": 0}, {"X": 15, "Y": 1}, {"X": 30, "Y": 0}]}], "Prev": dict(AUTO, Y0=0, Y1=1), "Rows": 12, "Cols": 6, "DomD": 1, "RngD": 1, "Line": 2, "Scale": 0, "DomLbl": 0, "RngLbl": 1}),
 dict(property="C19", sig="midrow",
      what="EvenlySpacedTicks leaves out all ticks of a row in the middle when the previous tick's inverted row equals it (same cause as the ticks sharing a row; pinned by the golden 4x10 graph)",
      case={"Series": None, "Prev": {"X0": 0, "X1": 1000, "Y0": -1, "Y1": 1}, "Rows": 13, "Cols": 30, "DomD": 1, "RngD": 1, "Line": 1, "Scale": 0, "DomLbl": 0, "RngLbl": 0}),
 dict(property="C20", sig="falling",
      what="Render draws a falling segment flat (when it is shallow) or not at all (when it is steep): the row never decreases (pinned by the golden graphs, whose falling segments are missing)",
      case={"Rows": 12, "Cols": 12, "Braille": False, "Series": [{"ID": 1, "Pts": [[9, 0], [2, 4]]}]}),
 dict(property="C09", sig="hash-collision",
      what="UpdateMetric takes a series for seen when the 64-bit hash of its labels has been seen, so the labels and values of a series whose hash collides with another one's are missing from the index (the code says that it does not care)",
      case={"Ops": [{"L": {"__name__": "metric", "lbl": "2fUczT"}, "T": 0, "V": 0}, {"L": {"__name__": "metric", "lbl": "qeYKm3"}, "T": 0, "V": 0}], "Mut": False}),
]
fixed = """
C02 10d5b81 out-of-order samples were appended unsorted, so range reads skipped or misplaced them
C05 c91f208 a series emptied by Clean was dropped from the index and never queryable again when reloaded
C03 a96ac9a selecting with matchers that all match the empty string deadlocked on the storage lock
C02 ee26d89 every caller of a stored series shared one iterator, and Seek could go backwards
C09 c696920 the index handed out its live label value sets, so callers saw (and could make) later changes
C07 91005c3 the two ends of a range query were taken from two different points in time
C08 72139a4 the current query was read without its lock while being executed (data race)
C10 c0fbbed the completion prefix was sliced with rune indices used as byte offsets (panic on non-ASCII)
C10 4be6f70 completing text whose first token does not lex panicked
C11 488f8e1 words of a previous text stayed in the parser when parsing from scratch
C11 900e775 extending the previous tokens did not continue parsing from them
C13 9204389 the @ modifier was taken for a binary operator
C15 eb0fb71 the case-insensitive filter returned lower-cased candidates
C16 aa9b396 completion happened at the display column of the cursor instead of its byte offset
C13 887373d atan2 was not treated as an arithmetic operator
C17 7f2413e plotting a series without points was a nil dereference
C17 2dc8bb0 NaN and infinite samples made the plot panic
C17 69405ed a point was projected by the scale of its distance from the minimum instead of the distance of the scaled values
C19 6c4fc18 the range tick loop did not end when the increment made no progress
C19 fb36553 domain ticks were put past the end of the domain
C17 f3a8d8f value ranges too wide or too narrow for float64 arithmetic were projected out of the grid (panic)
C24 fa0abb3 a reverse index at the top moved the cursor out and never ended
C23 d11c124 a character wider than the text area was drawn outside of it
C24 c018451 shrinking the box or moving by a negative count left the cursor outside
C25 f081478 F17-F20 were sent in the sequences of Home, Insert, Delete and End
C27 30e7bc2 keys pressed ahead of a shutdown blocked the event loop, which then never returned
C28 b429d7a the cursor was shown from a position read without its lock (data race)
C30 d3530a3 an HTTP error response was taken for metrics (an empty one for no metrics at all)
C30 d15b126 a one-shot query kept scraping after it had returned, and could print its answer again
C33 8f5dc05 the screen could be drawn before the prompt was set up (nil dereference at the start)
C33 09112ea the result of a query just replaced could stretch the axes of the next one (until the query changed again)
C34 b919079 label lookups compared the label's name with the matchers' values, and gave the index's internal empty name
"""
if __name__ == "__main__":
    for f in findings:
        if f["case"] is None:
            f["case"] = json.load(open(os.path.join(V, "tools", "known-c13.json")))["case"]
    fx = []
    for l in fixed.strip().splitlines():
        p, c, what = l.split(" ", 2)
        fx.append("fixed: property=%s %s %s" % (p, c, what))
    json.dump({"findings": findings, "fixed": fx}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
