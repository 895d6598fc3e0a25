"""Contracts on treebuilderutil.Changes (property C09)."""
from pyvc.contract import Contract
import parce.treebuilderutil as tbu

CHANGES = {"cls": tbu.Changes, "fields": {
    "text": "str", "root_lexicon": "obj", "start": "int", "removed": "int", "added": "int"}}

# A merged region (S, R, A) relates the oldest text (length n0) to the current
# text (length n1):  0 <= S, S + R <= n0, S + A <= n1, n1 - n0 == A - R.
# Everything outside the region is unchanged:  with the ghost function
# "image(p)": p < S -> p;  p >= S + R -> p - R + A.

def load(reg):
    reg.add(Contract("parce.treebuilderutil:Changes.add",
        params={"self": CHANGES, "text": "str", "root_lexicon": "obj", "start": "int", "removed": "opt[int]", "added": "opt[int]"},
        requires=[
            "0 <= start <= len(self.text) or self.start == -1 and 0 <= start",
            "start <= len(text)",
            "implies(removed is not None, removed >= 0)",
            "implies(added is not None, added >= 0)",
            # the state before is either 'no changes' or a region in the current text
            "self.start >= -1",
            "implies(self.start != -1, self.removed >= 0 and self.added >= 0 and self.start + self.added <= len(self.text))",
            # the new change is a change of the current text
            "implies(self.start != -1 and removed is not None, start + removed <= len(self.text))",
            "implies(added is not None, start + added <= len(text))",
            "implies(self.start == -1 and removed is None, start <= len(self.text))",
            "implies(self.start != -1 and removed is not None and added is not None, len(text) - len(self.text) == added - removed)",
        ],
        ensures=[
            "self.text == text",
            "iff(old(self.start) == -1, old(self.start == -1))",
            # the first change is stored as is
            "implies(old(self.start) == -1, self.start == start_ and self.removed == rem_ and self.added == add_)".replace("start_", "old(start)").replace("rem_", "ite(old(removed) is None, old(len(self.text) - start), old(removed))").replace("add_", "ite(old(added) is None, old(len(text) - start), old(added))"),
            "self.removed >= 0 and self.added >= 0 and self.start >= 0",
            # the merged region is the smallest one that contains both
            "implies(old(self.start) != -1, self.start == ite(old(start) < old(self.start), old(start), old(self.start)))",
            # the length difference accounts for both changes
            "implies(old(self.start) != -1, self.added - self.removed == old(self.added) - old(self.removed) + ite(old(added) is None, old(len(text) - start), old(added)) - ite(old(removed) is None, old(len(self.text) - start), old(removed)))",
            # the unchanged tail starts where both old and new change have ended: in terms of the old text
            # end of the merged region (in text before) = max(end of the region, end of the new change)
            "implies(old(self.start) != -1, self.start + self.added - (ite(old(added) is None, old(len(text) - start), old(added)) - ite(old(removed) is None, old(len(self.text) - start), old(removed))) == "
            "max(old(self.start + self.added), old(start) + ite(old(removed) is None, old(len(self.text) - start), old(removed))))",
        ],
        modifies=["self.text", "self.root_lexicon", "self.start", "self.removed", "self.added"],
    ))
    reg.add(Contract("parce.treebuilderutil:Changes.new_position",
        params={"self": CHANGES, "pos": "int"},
        returns="int",
        requires=["self.removed >= 0", "self.added >= 0", "pos >= 0"],
        ensures=[
            "implies(pos < self.start, result == pos)",
            "implies(self.start <= pos < self.start + self.removed, result == self.start + self.added)",
            "implies(pos >= self.start + self.removed and pos >= self.start, result == pos - self.removed + self.added)",
        ]))
    reg.add(Contract("parce.treebuilderutil:Changes.has_changes",
        params={"self": CHANGES}, returns="bool",
        ensures=["implies(self.start != -1, result)"]))
    return {}
