"""What decides each property: sidecar contracts, bounded harness modules, level."""

COMMON_ASSUMPTIONS = [
    "CPython semantics of the supported subset as modelled in pyvc; integers are mathematical in Python, so no overflow is abstracted",
    "the re module, built-in types and the standard library behave as documented",
]

PROPS = {
    "C09": dict(contracts=["c09_changes"], harness=["c09"], level="proof",
        note="Changes.add/new_position/has_changes proved against the region algebra for all texts and edits; the induction over the edit sequence is by the class invariant (each add preserves it)."),
}
def prop(pid, secs, contracts=(), note="", **kw):
    PROPS[pid] = dict(harness=[pid.lower()], level="proof" if contracts else "exploration", contracts=list(contracts),
                      seconds=(secs, 150), note=note, **kw)

prop("C01", 15, ["c01_parse", "c01_actions", "c01_lexer"],
     "every parse function that a lexicon compiles to, filter_actions, the sub-group, delegate and skip actions and Lexer.events (slices) are proved; cover of the whole text is proved per parse function",
     assumptions=["groups in a pattern with sub-group actions do not nest or overlap", "a dynamic action evaluates to at most one action"])
prop("C02", 15, ["c02_target", "c02_lexer"],
     "TargetFactory and Lexer.events (stack) proved: at every event the real stack equals the replayed one and the root is never left")
prop("C03", 15, ["c03_lexer", "c01_parse"],
     "Lexer.events terminates by a lexicographic measure (text left, zero-width state changes left at this position, stack depth); the loops of the parse functions have a decreasing measure")
prop("C05", 15, ["c05_find"],
     "all position searches of Context, first_token, last_token, pos and end are proved against a linear scan over the ghost sequence of all tokens",
     assumptions=["the tree is well-formed (property C04): children adjacent and in order, parent links right, no empty context but the root"])
prop("C06", 15, ["c06_nav"],
     "tokens (both directions), forward, backward and their variants, siblings, parent_index, ancestors, root, is_ancestor_of are proved against the ghost sequence of all tokens; copy, height, depth and common_ancestor are bounded",
     assumptions=["the tree is well-formed (property C04)"])
prop("C07", 15, ["c07_ranges"],
     "Range.slices and tokens are proved to yield the tokens from the first to the last, in order, each once, and pos and end to be their borders, for every range of a well-formed tree; from_tree is proved to give, for every region of the text, the range of exactly the tokens that overlap it (with valid trails from the youngest common ancestor), or nothing where there are none; targets, and ranges from one token to another, are bounded",
     assumptions=["the tree is well-formed (property C04)", "the start of the region is not negative"])
prop("C10", 15, ["c10_edits"],
     "every editing method of AbstractMutableString/MutableString is proved against the splice of the text, in and outside an edit context, for all texts, slices, positions and sets of pending edits, errors included",
     assumptions=["text_changed is an observer: ghost fields record its arguments", "sorted(dict) gives the keys, each once, in ascending order", "slice steps are 1 (other steps are ignored by the code and documented nowhere)"])
prop("C11", 12, ["c11_undo"],
     "reversed changes are proved (with a lemma by induction) to restore the text; what is stored, announced, popped and applied by an edit, undo, redo and clear is proved for every stack",
     assumptions=["observers of a document do not edit it", "edits of one context that are in order and do not overlap act as one splice (C10)", "Document._set_all_undo_redo_modified marks all entries (bounded)"])
prop("C12", 12, ["c12_cursors"],
     "AbstractDocument._update_cursors proved against the position map of a sorted, non-overlapping list of changes for every set of cursors; what Cursor methods do with it is bounded",
     assumptions=["a WeakSet holds every cursor once"])
prop("C13", 12, ["c13_blocks"],
     "all block functions of AbstractDocument and Block proved against the ghost sequence of block starts",
     assumptions=["str.find, str.rfind and str.count as documented by CPython", "occurrences of the block separator do not overlap"])
prop("C14", 12, ["c14_format"],
     "merging, clipping and the two streams of format_ranges are proved (ordered, disjoint, whole tokens or gaps, complete where a base format exists), and format_text yields the whole text in order; the composition in format_ranges and the language switching are bounded",
     assumptions=["one theme in the proof of the streams (several themes: bounded)", "the tokens of a range come in order (C07)"])
prop("C04", 15, ["c04_build", "c04_groups"],
     "build_tree, make_tokens and GroupToken.make_group are proved on the heap: parent links, order, tokens equal to the lexemes of the lexer, groups, no empty context but the root, the lexicon path of every token equal to the lexer stack; get_group, get_group_start and get_group_end are proved",
     assumptions=["Lexer.events obeys its contract (proved for C01, C02)", "Node.parent is a weak reference to a node that stays alive", "a lexeme is a tuple (pos, text, action)"])
prop("C08", 20, ["c08_rebuild"],
     "the parts of the incremental rebuild are proved: find_token_before, backward, ancestors_with_index, get_lexer (the stack of lexicons at a token), new_tree (an empty copy of the ancestry), replace_nodes, replace_pos, get_changes; their composition in get_prepared_lexer, build_new_tree and replace_tree is bounded",
     assumptions=["the tree is well-formed (property C04)", "the consumer of a generator changes nothing that the generator reads"])
prop("C16", 15, ["c16_query"],
     "every navigating and selecting step of a query but slice, matching and remove_ancestors is proved to yield, for every sequence of source nodes, the sequence that its definition gives (uniq and remove_descendants with sets included), as are count, pick, pick_last, is_not and the truth value; range, delete, slice, matching, remove_ancestors are bounded",
     assumptions=["the source of a step yields the same nodes each time it is iterated over", "the tree is well-formed (property C04)"])
prop("C17", 12, ["c17_actions"],
     "creation, attribute access, iteration, membership, the common ancestor and copying of standard actions are proved on the heap of actions",
     assumptions=["names of actions do not start with an underscore (the instance dictionary also holds _name and _parent)", "one thread (the lock is not modelled)", "the parents of an action have no cycle"])
prop("C20", 12, ["c20_encoding"],
     "get_bom_encoding, _validate_encoding, decode_data and encode_text are proved: which encoding decodes the data and which one is remembered, for every data, every codec and whatever the language says; the round trip through files is bounded",
     assumptions=["str.encode raises LookupError exactly for an encoding that cannot be used", "io.BytesIO and io.TextIOWrapper as documented", "IO.get, find_encoding, default_encoding and Registry.find may be any functions", "the table _BOM_WRITING_ENCODINGS is read from the module when the check starts"])
prop("C21", 12, ["c21_observable"],
     "connect, disconnect, disconnect_all, emit, the observers' order and equality are proved on the heap of observers; emit for slots that do not change the connections, the rest is bounded",
     assumptions=["slots called by emit do not change the connections in the proof (bounded otherwise)", "weak references to bound methods are bounded", "contextlib.ExitStack as documented"])
prop("C19", 12, ["c19_registry"],
     "qualname (name, aliases, case, class name, in that order), suggest (what matches, by descending weight: with a filename and/or a mimetype, and with contents alone) and find (the first suggestion, else the fallback) are proved for every registry; suggest with contents next to a filename or mimetype, add, lexicon and copy are bounded",
     assumptions=["a qualified name has two dots", "weights are exact numbers", "fnmatch.fnmatch, re.search, str.lower, str.rsplit, sorted and dict as documented"])
prop("C23", 12, ["c23_indent"],
     "the edits of increase_indent, decrease_indent and strip_trailing_blanks are proved exactly, for every set of lines; indent and auto_indent are proved to replace, in order, only leading whitespace of lines of the range by blanks; idempotence and increase-then-decrease are bounded",
     assumptions=["the indent that indent_info reports is part of the leading whitespace of the line and consists of blanks (bounded)", "in an edit context edits are collected; text and blocks stay as they are (C10, C13)", "Cursor.block and Cursor.blocks are bounded", "str.rstrip as documented"])
prop("C22", 12, ["c22_css"],
     "matching of an element with a selector, with a list of selectors and operators and with a prelude, the structural pseudo classes, the selection of rules, the declarations of one rule and the cascade of all selected rules (Style.properties) are proved for all elements, selectors and rules; the sorting by specificity, at-rules, colours, text formats and reading of CSS are bounded",
     assumptions=["the values of a declaration are strings in the proof (a Value is never equal to '!important')", "a selector in a list is never equal to an operator string", "the abstract methods of an element may be any functions of the element", "dict and str methods as documented", "termination of match_selectors is not proved (a parent chain without end)"])
prop("C24", 12, ["c24_items"],
     "evaluate and pre_evaluate of every kind of item (call, select, target, postponed items, sub-groups, lists and tuples, plain objects) are proved against one meaning of an item: evaluating gives it, evaluating in part keeps it, and the flags for complete and unchanged are true; so are the constructors, variables, evaluate_rule for rules without nested lists, and the identity of derived lexicons; pre_evaluate_rule, variations of whole rules and unrolling are bounded",
     assumptions=["an evaluated value evaluates to itself (values hold no items)", "the index of a selection or target is in range", "functions in a call depend on their arguments only", "objects are finite (the contract of any object is used for its parts)", "cached methods return the same object for the same arguments (bounded)"])
prop("C15", 12, ["c15_transform"],
     "transform_tree is proved to give the result of the tree (defined by recursion over its contexts), whatever of it is in the cache, and to keep the cache valid, also when it is interrupted; process stores and announces a result only if it is that of the tree; invalidate_node forgets exactly the node and its ancestors below the root; the filters of a list of items are proved; transforming text directly and the invalidation by the tree builder are bounded",
     assumptions=["the tree does not change while it is transformed (a change is announced by an interrupt)", "a transform method depends on the items and the argument of its list only", "one transform for a language, one method for a name (getattr)", "termination of transform_tree is not proved"])
prop("C18", 12, ["c18_regex"],
     "make_charclass is proved for every set of characters: the text it returns is that of ranges that cover exactly the codes of these characters; word lists (tries, common suffixes, building the expression) and to_string are bounded",
     assumptions=["a character class with the text of ranges one after the other matches the characters in one of them (re documentation)", "re.escape escapes character by character", "sorted, map, set, ord and chr as documented"])

NOT_APPLICABLE = {
    "C25": "thread schedules: pyvc (like the other contract verifiers for Python) has no model of threads, and a contract on one call cannot express a wait under every interleaving",
}
