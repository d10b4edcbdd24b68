REGISTRY = {}


def reg(pid, mod, fn, explanation, level='other'):
    REGISTRY[pid] = (mod, fn, {'level': level, 'explanation': explanation})


DF = ('Path-sensitive dataflow analysis over the type-checked MIR of the current source: every path of the functions named in '
      'functions_analysed is summarised symbolically (loops as per-element rules over whole collections, no bound), and each '
      'summary is compared structurally with what the rule demands; nothing of the library is executed. ')

reg('P20', 'walk', 'p20', DF + 'Rule: what an operation adds up is exactly what it was told by the calls that made the changes.')
reg('P21', 'walk', 'p21', DF + 'Rule: the walk hands out the places, changes nothing itself, and find copies what it is handed.')
reg('P22', 'walk', 'p22', DF + 'Rule: steps whose conditions fail contribute nothing, and conditions mean equal text of the named field.')
reg('P23', 'walk', 'p23', DF + 'Rule: the places visited for each kind of step, in order, are exactly those the step names.')
reg('P24', 'edits', 'p24', DF + 'Rule: the entry list after an insert.')
reg('P25', 'edits', 'p25', DF + 'Rule: the entry list, entry or value after remove, rename and wrap.')

reg('P14', 'strings', 'p14', DF + 'Rule: how each chomping ends the value of a block scalar.')
reg('P18', 'strings', 'p18', DF + 'Rule: the text of each kind of scalar, the same from every reader.')
reg('P45', 'serde', 'p45', DF + 'Rule: what sequence and map requests hand over, and how.')
reg('P46', 'serde', 'p46', DF + 'Rule: what a request for an enum answers for each shape.')
reg('P47', 'errors', 'p47', DF + 'Rule: the place, text and origin of every failure that parsing and conversion report.')
reg('P48', 'copies', 'p48', DF + 'Rule: what the copy and comparison of every type of the data model gives, for each pair of kinds.')
reg('P41', 'serde', 'p41', DF + 'Rule: the meaning of each special word for each reader.')
reg('P43', 'serde', 'p43', DF + 'Rule: which conversions lie between a number and its text.')
reg('P40', 'serde', 'p40', DF + 'Rule: the form each serializer builds, read back by the deserializer of the same kind, hands over the same parts.')
reg('P42', 'serde', 'p42', DF + 'Rule: how references are looked up and followed, and where anchors are recorded.')
SCAN = ('Whole-crate scan of the type-checked MIR of the current source: every statement, call and constant of every function, closure and '
        'constant is inspected; nothing of the library is executed. ')
reg('P44', 'effects', 'p44', SCAN + 'Rule: def-use chains of every result that can be a failure.')
reg('P50', 'effects', 'p50', SCAN + 'Rule: effect analysis (statics, ambient authority, hash order, addresses, shared cells).')

GR = ('Grammar analysis of the .pest files of the current source (the language of child nodes of every rule, as a finite automaton) combined with '
      'path-sensitive dataflow analysis over the type-checked MIR of the methods that consume the matches: every method is summarised for each '
      'sequence of up to 6 child nodes that its rule can have; nothing of the library is executed. ')
reg('P01', 'parsing', 'p01', GR + 'Rules: a fixpoint over the grammar bounds what its text stack holds, so no operation finds it empty; every condition under which a consuming method panics is refuted by the shortest text its rule matches, by what the methods of its children return at least, or by enumerating the finitely many texts of its rule in the extracted conditions; the functions around the parser are analysed as in P03.')
reg('P02', 'parsing', 'p02', GR + 'Rules: a fixpoint over the grammar bounds what its text stack holds, so no operation finds it empty; every condition under which a consuming method panics is refuted by the shortest text its rule matches, by what the methods of its children return at least, or by enumerating the finitely many texts of its rule in the extracted conditions; the functions around the parser are analysed as in P03.')
reg('P03', 'panics', 'p03', DF + 'Rule: every condition under which an operation would panic (failed unwrap, index or slice out of range, slicing inside a character, arithmetic underflow, explicit panic) is impossible; function values handed to other functions are analysed with the facts known where they are made and what their receiver promises about its calls. A condition that cannot be refuted is reported when it holds for definite argument values (found by constant propagation over the extracted conditions; nothing of the library is executed), otherwise it is left undecided.')
reg('P04', 'panics', 'p04', DF + 'Rule: every condition under which an operation would panic is impossible. A condition that cannot be refuted is reported when it holds for definite argument values (found by constant propagation over the extracted conditions; nothing of the library is executed), otherwise it is left undecided.')
reg('P05', 'panics', 'p05', DF + 'Rule: every condition under which a conversion would panic is impossible as long as a value is asked for after its key, and (typestate of RefCell guards) nothing that may borrow a shared cell is called while the cell is borrowed. A condition that cannot be refuted is reported when it holds for definite argument values (found by constant propagation over the extracted conditions; nothing of the library is executed), otherwise it is left undecided.')
reg('P06', 'descent', 'p06', DF + 'size-change analysis of the call graph', )
reg('P10', 'parse', 'p10', GR + 'Rule: no sequence of children the grammar can produce is rejected by its consumer.')
reg('P11', 'parse', 'p11', GR + 'Rule: what a method builds holds the value of every child once, in order, in the node of its kind; text is handed on as matched.')
reg('P12', 'parse', 'p12', GR + 'Rule: the tables of escapes read, valued and written agree with each other and with YAML.')
reg('P13', 'format', 'p13', GR + 'Rule: the headers written and read agree, and the lines written.')
reg('P15', 'format', 'p15', DF + 'Rule: the pieces of text each kind of node appends to the output, in order.')
reg('P27', 'parse', 'p27', GR + 'Rule: the step each path rule builds, and what appending does to each kind of step.')
reg('P30', 'maps', 'p30', DF + 'Rule: the node handed to the function, the calls made before it, and what is kept.')
reg('P31', 'maps', 'p31', DF + 'Rule: the calls made, in order, for each kind of node and entry.')
reg('P32', 'maps', 'p32', DF + 'Rule: the entries of a prettified collection, and when a block collection may become inline.')

TB = (' The conditions and results extracted from the code are read as tables over texts (constant propagation of each text of a bounded set of '
      'combinations of all the characters the grammar distinguishes), and compared with what the grammar file reads each text as. ')
CB = (' The extracted summary of each callback is read as a table over small documents (constant propagation over a fixed set of combinations of '
      'entry kinds, comments, anchors, colliding names and field lists), the single edits it calls having the meaning P18 and P23-P25 decide. ')
reg('P26', 'moves', 'p26', DF + CB + 'Rule: every entry, value, anchor and comment before the move is there after it, or nothing changed.')
reg('P16', 'quoting', 'p16', DF + TB + 'Rule: whatever is left unquoted is one plain scalar of that text in every place, also untyped.')
reg('P17', 'quoting', 'p17', DF + TB + 'Rule: the parts of a quoted scalar in order are the text, each run plain for the grammar.')
reg('P33', 'quoting', 'p33', DF + TB + 'Rule: the text before and after prettifying; folded only under the comparison.')
