"""Single source for properties.jsonl and the claimed/not-applicable split.

Run `python3 tools/props.py` in /verif to rewrite properties.jsonl and
MANIFEST.json.  (Committed output; checks never run this.)
"""
import json, os

def P(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files,
                             state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                             mechanism=[dict(name=n, where=w) for n, w in mechanism],
                             observe_at=list(observe), hook_needed=None))

G = 'lambeq/backend/grammar.py'
PROPS = []
def add(*a, **k): PROPS.append(P(*a, **k))

add('C01', 'JSON round trip of types, boxes, diagrams and CCG trees',
    'Encoding any grammar type, box, word, cap, cup, swap, spider, daggered box, frame, daggered frame, layer or diagram to JSON and decoding it, through the class or through the category, gives back an object of the same class with every field equal; the same holds for the text, rule, type and children of CCG trees. '
    'Every class that can be encoded, also when nested inside another object, can be decoded. Decoding the same JSON data twice gives the same object twice.',
    ['inputs'], 'every object of every serialisable class, every nesting of one in another',
    'Tests encode a handful of diagrams; they do not nest every class in every container and sample a few field values.',
    [G, 'lambeq/text2diagram/ccg_tree.py', 'lambeq/text2diagram/ccg_type.py', 'lambeq/text2diagram/ccg_rule.py'],
    [('to_json / from_json of each entity class', G), ('entity dispatch tables', 'Category.from_json, Layer.from_json, Frame.from_json'), ('CCGTree.to_json / from_json', 'lambeq/text2diagram/ccg_tree.py')],
    observe=['Entity.to_json', 'Category.from_json', 'CCGTree.from_json'])

add('C02', 'Diagram combinators produce the boundary they promise',
    'For all types and diagrams, identity, sequential and parallel composition, insertion at an offset, caps, cups, swaps, spiders, the six CCG-style combinators (forward/backward application, composition and crossed composition), transposition, currying, rotation and dagger return a diagram whose domain and codomain are the ones the pregroup (rigid) definition of that operation gives, and whose inner layers compose. '
    'Sequential composition of diagrams whose boundaries differ is rejected with an error instead of returning an ill-typed diagram. Types behave as words of atoms with adjoint orders under tensor, rotation, indexing, slicing, insertion, replacement and repetition.',
    ['inputs'], 'all domain/codomain types (any length, any adjoint order) and all diagrams',
    'Tests instantiate a few one- and two-wire types; the claim is over types of every length and adjoint order, where slips in order or adjoint only show with composite types.',
    [G], [('Diagram.fa/ba/fc/bc/fx/bx, transpose, curry, then, tensor, then_at, rotate, dagger', G), ('Cap/Cup/Swap/Spider constructors', G)],
    observe=['Diagram.dom', 'Diagram.cod', 'Diagram.layers'])

add('C03', 'CCG derivations become diagrams with the derivation\'s types',
    'For every CCG rule and all categories it applies to, the diagram produced for that rule has the product of the premises\' pregroup types as domain and the conclusion\'s pregroup type as codomain, and the categories a rule infers for missing premises or conclusions are the ones that rule defines. A rule inferred from categories is one they are an instance of. '
    'The diagram of a whole derivation, planar or not, has no input, the type of its conclusion as output and each of its words once; a planar one has no swaps. '
    'Every rule of the rule set is handled both when deriving categories and when drawing diagrams, and every rule name the parsers can emit is a member of the rule set.',
    ['inputs', 'programs'], 'all CCG rules and all CCG categories (any nesting of slashes)',
    'Tests use a fixed list of sentences/trees; rarely used rules (generalised composition, crossed composition, substitution-like and punctuation rules) on complex categories are barely sampled.',
    ['lambeq/text2diagram/ccg_rule.py', 'lambeq/text2diagram/ccg_tree.py', 'lambeq/text2diagram/ccg_type.py', 'lambeq/bobcat/rules.py', 'lambeq/bobcat/tree.py'],
    [('CCGRule.apply / resolve / infer_rule', 'lambeq/text2diagram/ccg_rule.py'), ('CCGTree._to_diagram', 'lambeq/text2diagram/ccg_tree.py'), ('CCGType.to_grammar', 'lambeq/text2diagram/ccg_type.py')])

add('C04', 'Rewriting a box never changes its boundary',
    'Every built-in sentence- or diagram-rewrite rule replaces a box by a diagram that has the same domain and codomain as that box, for every box the rule accepts. Removing cups, currying, unifying codomains and the other whole-diagram rewriters return a well-typed diagram with the codomain they document. The rules of a rewriter apply to every box they accept, whenever they were added and whatever was rewritten before.',
    ['inputs'], 'all boxes a rule matches, all types',
    'Tests rewrite a few fixed sentences; a template whose types are wrong for one matched word or for a composite type goes unseen.',
    ['lambeq/rewrite/base.py', 'lambeq/rewrite/rewrite_diagram.py'],
    [('rewrite rule templates and rewrite methods', 'lambeq/rewrite/base.py'), ('diagram rewriters', 'lambeq/rewrite/rewrite_diagram.py')])

add('C05', 'Dagger and rotation lose nothing',
    'For every kind of box, layer and diagram in the grammar, tensor and quantum categories, taking the dagger twice gives back an equal object, rotating by z and then by -z gives back an equal object, rotations add up, and dagger swaps and rotation transforms the boundary as defined. '
    'Name, data, phase, distance, leg counts, components and every other attribute that determines what the box denotes are carried over.',
    ['inputs'], 'all boxes of every class, all rotation amounts',
    'Tests rotate a few boxes once; losing an attribute for one class, or for even or negative rotations only, is not sampled.',
    [G, 'lambeq/backend/tensor.py', 'lambeq/backend/quantum.py'],
    [('rotate / dagger of each class', G), ('rotate / dagger overrides', 'lambeq/backend/tensor.py, lambeq/backend/quantum.py')])

add('C06', 'Substituting parameter values changes only the parameters',
    'Turning a box, daggered box, controlled gate or circuit with symbolic parameters into a function of the values and applying it gives an object of the same class whose boundary, adjoint order, mixedness, control distance and every other attribute are unchanged, with only the parameter data replaced. '
    'In every model the weight at position i is the one substituted for the symbol at position i, whatever the order in which circuits mention the symbols.',
    ['inputs'], 'all parametrised boxes and diagrams, all symbol orders',
    'Tests lambdify a few gates with default attributes; dropping a non-default attribute is invisible there.',
    ['lambeq/backend/tensor.py', 'lambeq/backend/quantum.py', 'lambeq/backend/symbol.py', 'lambeq/training'],
    [('lambdify methods', 'lambeq/backend/tensor.py, lambeq/backend/quantum.py'), ('symbol/weight pairing', 'lambeq/training/*_model.py')])

add('C07', 'Functor application is well-typed on every call',
    'Applying a functor to a box or diagram either returns an arrow whose domain and codomain are the images of the original domain and codomain or raises, and it returns whenever the object and arrow maps fit together; this holds for the first and for every later application of the same functor to the same or an equal object, and a failed application leaves nothing behind that a later one returns. '
    'Results handed out do not share mutable state with what later calls return. '
    'A functor is determined by its images of atomic types and plain boxes: it commutes with tensor, composition, identities, adjoints and dagger, and sends cups, caps, swaps and spiders to those of the target category.',
    ['inputs', 'histories'], 'all functors, all diagrams, all call histories',
    'Tests call a functor once per object; the claim is about repeated calls, failures followed by retries and result aliasing.',
    [G, 'lambeq/ansatz/base.py'], [('Functor.__call__, ob_with_cache, ar_with_cache', G)],
    state=[('ob_cache / ar_cache', 'memoised images', G)])

add('C08', 'Library calls never modify the objects they are given',
    'Diagrams, types, boxes, trees, lists, dictionaries and arrays that a caller passes to a conversion, rewriting, decoding, drawing, ansatz, parsing, model or training call are left unmodified by it, unless modification is the documented purpose of that call. '
    'Objects given to a constructor are not changed by the object that was made from them either. No element is removed from or inserted into a container, nor a key added to a dictionary or set, while a loop runs over it (appending to a list that serves as a worklist is not affected).',
    ['inputs', 'histories'], 'every public entry point and every argument value',
    'Tests rarely look at their inputs again after the call.',
    ['lambeq'], [('copy-before-modify idiom', 'lambeq/training/*_model.py, lambeq/backend/*.py, lambeq/text2diagram/*.py')])

add('C09', 'Resuming training continues from exactly the saved state',
    'The checkpoint written at the end of each epoch stores each counter, history, metric collected so far, best score, model weight, symbol list, random-generator state and optimiser quantity that later training depends on; nothing stored changes between that save and the next epoch; and a trainer created with from_checkpoint puts each one back where it came from before it continues with the next epoch (the random generators when a seed is given), and does not overwrite it. The best-model checkpoint has every entry that loading needs. '
    'Optimisers save and restore every attribute that their step changes and later steps read. Loading a model checkpoint discards anything derived from the previous weights or symbols.',
    ['histories', 'crash_points'], 'all training runs interrupted at any epoch and resumed',
    'Tests resume one short run and compare a few numbers.',
    ['lambeq/training/trainer.py', 'lambeq/training/quantum_trainer.py', 'lambeq/training/pytorch_trainer.py', 'lambeq/training/checkpoint.py', 'lambeq/training/model.py', 'lambeq/training/numpy_model.py', 'lambeq/training/pennylane_model.py', 'lambeq/training/pytorch_model.py', 'lambeq/training/spsa_optimizer.py', 'lambeq/training/rotosolve_optimizer.py', 'lambeq/training/nelder_mead_optimizer.py'],
    [('save / load pairs', 'Trainer.save_checkpoint / load_training_checkpoint, Model.save / load, Optimizer.state_dict / load_state_dict')])

add('C10', 'A crash while saving never destroys the previous checkpoint',
    'At every moment while a checkpoint is being written to a path that already holds one, that path holds either the complete old or the complete new checkpoint; an interrupted or failed save leaves the old one loadable.',
    ['crash_points', 'fault_sequences'], 'every interruption or I/O error point during a save',
    'Tests never interrupt a save.',
    ['lambeq/training/checkpoint.py'], [('Checkpoint.to_file', 'lambeq/training/checkpoint.py')])

add('C11', 'Temporary state is restored on every exit',
    'Whatever the library switches temporarily is back to its previous value when the call or with block ends, also when it ends by an exception: the active numerical backend after a with backend(...) block and after every evaluation, model and training call; the training flag of a model after QuantumTrainer.fit; the model weights when the loss evaluation of an optimiser\'s backward raises, and, for SPSA, also when it returns; temporary files and folders.',
    ['fault_sequences', 'histories'], 'every exit path, normal or exceptional, of every scoped operation',
    'Tests exercise the normal exit only.',
    ['lambeq/backend/numerical_backend.py', 'lambeq/training'], [('push/pop of the backend stack', 'lambeq/backend/numerical_backend.py'), ('training-mode flags and weight perturbation', 'lambeq/training')])

add('C12', 'Batch parsing keeps positions and hides errors only when asked',
    'A batch call of any parser or reader returns exactly one result per input sentence, in input order; with exceptions suppressed a failing sentence gives an empty result at its own position and the others are unaffected, and without suppression the failure is raised to the caller. '
    'Blank sentences are treated as failures at their own position. The one-sentence forms give what the batch gives for that sentence, and the batch that was handed in is left as it was.',
    ['inputs', 'fault_sequences'], 'all batches, any subset of failing or blank sentences',
    'Tests use one failing sentence in one position for one parser.',
    ['lambeq/text2diagram'], [('sentences2trees / sentences2diagrams of each parser', 'lambeq/text2diagram')])

add('C13', 'A downloaded model is used only after its checksum matched',
    'Files of a model fetched from the network are installed into the cache only after the downloaded archive\'s checksum equalled the published one and the archive was unpacked without an error. The version marker holds the published version and is written only once all files are installed, and the marker of an earlier installation is removed before its files are replaced; so a failed or interrupted download never leaves a cache entry that is later accepted: without a marker the model is downloaded again or the error is reported, also when the published version cannot be retrieved.',
    ['fault_sequences', 'crash_points'], 'every failure or interruption point of a download',
    'Tests mock the network and follow one or two orders of events.',
    ['lambeq/text2diagram/model_based_reader/model_downloader.py', 'lambeq/text2diagram/model_based_reader/base.py'],
    [('ModelDownloader.download_model', 'lambeq/text2diagram/model_based_reader/model_downloader.py')])

add('C14', 'Exported circuits contain every gate faithfully',
    'A circuit converted to another framework (tket, PennyLane, DisCoPy), and a tket or DisCoPy circuit converted to lambeq, has on every wire the same operations in the same order: for every gate its kind, its parameter (a number, zero included, or a multiple of a symbol), its adjoint flag, its control and target qubits and its control distance, and every preparation, measurement, discard, post-selected value and scalar, wherever they are in the diagram; no operation is dropped, doubled or moved past one that it shares a wire with. Bits and PennyLane post-selections keep their order, and the value given for a symbol of a PennyLane circuit, times its scale, is the angle of every gate that has the symbol. '
    'A gate kind that the target does not support is reported as an error rather than silently omitted or replaced. Diagrams of grammar and tensor category converted to DisCoPy and back are the diagrams they were.',
    ['inputs'], 'all circuits over the supported gate set',
    'Tests convert a few circuits with generic parameter values.',
    ['lambeq/backend/quantum.py', 'lambeq/backend/pennylane.py', 'lambeq/backend/converters/tk.py', 'lambeq/backend/converters/discopy.py'],
    [('Gate.from_box, gate tables', 'lambeq/backend/quantum.py'), ('to_tk / from_tk', 'lambeq/backend/converters/tk.py'), ('OP_MAP', 'lambeq/backend/pennylane.py')])

add('C15', 'Equal objects are interchangeable, different objects are told apart',
    'Two boxes or diagrams compare equal only if they agree on every attribute that determines what they denote (class, name, boundary, adjoint order, data, control distance, components), and equal objects have equal hashes. '
    'Tables keyed by diagrams or boxes therefore never return the entry of a different diagram.',
    ['inputs'], 'all pairs of boxes and diagrams',
    'Tests compare a few pairs.',
    [G, 'lambeq/backend/tensor.py', 'lambeq/backend/quantum.py', 'lambeq/training'], [('__eq__ / __hash__ / __repr__ of each class', G + ', lambeq/backend/tensor.py, lambeq/backend/quantum.py')])

add('C16', 'The same seed gives the same run',
    'Every random choice that lambeq itself makes during training, data shuffling and parameter initialisation comes from a generator that the user-supplied seed controls, and the order of symbols, weights, batches and diagram parts never depends on the iteration order of an unordered collection.',
    ['histories', 'configurations'], 'all seeds, hash seeds and process runs',
    'A test process sees a single hash seed and a single ordering.',
    ['lambeq/training', 'lambeq/ansatz', 'lambeq/backend'], [('seeded generators; sorted symbol sets', 'lambeq/training')])

add('C17', 'Each training epoch sees every example once, paired with its label',
    'Iterating over a non-empty dataset yields every (example, label) pair exactly once per pass, in batches of the requested size, whatever the batch size, also when the batch size does not divide the dataset and when shuffling is on; shuffling keeps each example with its own label and changes neither the dataset nor the lists it was made from. Indexing and slicing pair an example with its own label.',
    ['inputs'], 'all dataset sizes, batch sizes and shuffles',
    'Tests use a few sizes.',
    ['lambeq/training/dataset.py'], [('Dataset.__iter__ / shuffle_data / batches_per_epoch', 'lambeq/training/dataset.py')])

add('C18', 'Ansatz parameters are named apart and shared only by equal boxes',
    'Every ansatz names the parameters of a box after the box\'s name, the boundary the box has without its own adjoint, and the parameter\'s index, whatever boxes it was applied to before: occurrences of one box (rotated ones and daggers included, in one diagram, in later calls and in other ansatz objects with the same settings) have the same parameters, different indices within a box have different parameters, every declared parameter is used, and boxes that differ in name, domain or codomain have none in common. '
    'The circuit or tensor produced for a box has the boundary the ansatz\'s type map assigns to that box, and the declared size of a tensor parameter is the size of the tensor it fills.',
    ['inputs'], 'all boxes and all ansatz settings',
    'Tests check a few boxes with distinct names.',
    ['lambeq/ansatz/base.py', 'lambeq/ansatz/circuit.py', 'lambeq/ansatz/tensor.py'], [('_summarise_box, symbol creation', 'lambeq/ansatz')])

add('C19', 'The command line rejects bad options before working and honours good ones',
    'Every option the command line accepts influences the run that it is documented for; an invalid option combination is reported before any parsing, model loading or output; an option left at its default never makes a run fail.',
    ['configurations'], 'all combinations of command-line options',
    'Tests run a handful of argument lists.',
    ['lambeq/cli.py'], [('ArgumentParser set-up and the pipeline stages', 'lambeq/cli.py')])

add('C20', 'Every drawing backend can draw everything',
    'Each drawing backend implements every drawing primitive with the interface the drawing code calls, so that any diagram that one backend draws, the others draw as well, with the same things in the same places; every option of a drawing call reaches the primitive it controls. What is drawn is the diagram: every box, wire and type label once, wires connect on the page (or in the rows of a text drawing) what they connect in the diagram, the control of a controlled gate sits on its control wire, and without frames nothing is drawn on top of each other; TikZ edges refer only to nodes and styles that are defined. In text output with ASCII requested, only ASCII characters are produced.',
    ['inputs', 'configurations'], 'all diagrams, all drawing options, all backends',
    'Tests draw a few diagrams with a few options.',
    ['lambeq/backend/drawing', 'lambeq/text2diagram/ccg_tree.py'], [('DrawingBackend subclasses', 'lambeq/backend/drawing'), ('character tables', 'lambeq/backend/drawing/text_printer.py, lambeq/text2diagram/ccg_tree.py')])


AI = 'abstract interpretation of the source'
CF = 'control-flow graph with exception edges and inlined helpers: '
add('C21', 'Tensor networks are wired as the diagram is',
    'The tensor network of a tensor or quantum diagram has one node per box (two, the second with conjugate entries, for a quantum box of a mixed circuit) holding that box\'s own entries, conjugated and with its axes exchanged for adjoints and conjugates, and its legs are connected exactly as the wires of the diagram connect the boxes: swaps, cups, caps, spiders, copies of measured and encoded wires, discards and controlled gates at a distance connect what they depict, on wires of every dimension, also when they act on composite types. '
    'The open edges are those of the domain and then those of the codomain, in order (bits, qubits, conjugate qubits for a mixed circuit), and evaluating contracts this network, the doubled one exactly if it is asked for or the circuit is mixed.',
    ['inputs'], 'all tensor diagrams and circuits',
    'Tests evaluate a few diagrams, mostly on symmetric arrays and wires of one dimension.',
    ['lambeq/backend/tensor.py', 'lambeq/backend/quantum.py', G], [('Diagram.to_tn', 'lambeq/backend/tensor.py, lambeq/backend/quantum.py'), ('arrays of adjoints and conjugates; Controlled.decompose', 'lambeq/backend/tensor.py, lambeq/backend/quantum.py'), ('composite cups, caps, swaps, spiders', G)])

add('C22', 'Diagram operations keep what is connected to what',
    'A diagram is determined by which leg of which box is joined to which. Cups, caps, swaps and spiders of several wires connect what their drawings show; composition, tensor products, slices, daggers, rotations, transposes, currying, permutations and the CCG combinators connect the legs of their arguments accordingly, and always give diagrams whose layers compose. '
    'Normal forms, snake removal and the removal of cups change how a diagram is drawn, never what it connects. A rewrite rule replaces a box by what the rule says and leaves the rest connected as it was; a functor replaces wires by bundles of wires and boxes by their images. '
    'The diagrams of CCG rules and derivations, planar or not, of readers and of lists of cups and swaps join exactly the wires that the derivation, the reader or the list relates.',
    ['inputs'], 'all grammar diagrams, CCG derivations and sentences',
    'Types alone do not tell which of two equal wires was connected; tests compare a few diagrams, mostly without repeated types.',
    [G, 'lambeq/backend/snake_removal.py', 'lambeq/rewrite', 'lambeq/text2diagram'], [('Diagram, Cup, Cap, Swap, Spider, Functor', G), ('snake_removal, normalize', 'lambeq/backend/snake_removal.py'), ('RemoveCupsRewriter and rewrite rules', 'lambeq/rewrite'), ('CCGRule.apply, CCGTree.to_diagram, readers', 'lambeq/text2diagram')])

add('C23', 'Bobcat builds only derivations of CCG, and its chart keeps the best of them',
    'Whenever two constituents are combined, the result is what a rule of CCG makes of their categories: application, composition, crossed and generalised composition match the argument exactly, up to the feature X, which takes the feature it meets in the whole result; coordination gives X\\X, punctuation leaves the category as it was, type changing and type raising give what the grammar lists. Pairs that the grammar does not list are never combined; pairs that application or composition fits are, except for what coordination, type raising and normal form exclude. '
    'The dependencies of a derivation are those its categories annotate, each slot filled by the head that the derivation puts there. '
    'Category texts are read with their variables, slots and features; equal categories have equal hashes; a pattern without a feature matches every feature. '
    'A cell of the chart holds, in the order of the scores, the best tree of each category and nothing below the beam; the parses at the root of the chart are the best derivations of the whole sentence, by category, with the sum of the scores of their words and spans, restricted to the root categories.',
    ['inputs'], 'all pairs of constituents, grammars, category texts, tags and scores',
    'Tests parse no sentence with Bobcat without its models; the rules and the chart run on none of them.',
    ['lambeq/bobcat'], [('Rules.combine, type_change, type_raise', 'lambeq/bobcat/rules.py'), ('Unify, ParseTree, Dependency', 'lambeq/bobcat/tree.py'), ('Category, parse', 'lambeq/bobcat/lexicon.py'), ('Cell, Chart, ChartParser', 'lambeq/bobcat/parser.py')])

CHECKS = {
 'C23': (AI + ' of the combinatory rules, the unification and the chart on concrete categories, derivations and sentences, against rule schemas, annotated slots and an exhaustive chart', 'About 5,700 obligations: 42 annotated categories in all ordered pairs, and those that some rule fits with either side made by each kind of rule, in normal form and without; 26 derivations with their dependencies; 150 (thorough: 430) sequences of additions to a cell; 17 categories in all pairs; 9 sentences under four (thorough: six) settings of scores. The tagger and its scores are inputs; the grammar file of the model is not analysed; generalised backward composition is not judged.'),
 'C19': (AI + ' of the whole command line over a table of what each option is for', 'About 1,600 command lines: modes, sources, work, formats, sinks (a third of the product; thorough: all), tokeniser, categories, ansatz, output and stored options. argparse, the file system and the models are stand-ins. Whether each option reaches the component it configures is decided; what the component does with it is not.'),
    'C22': (AI + ' of the operations on concrete diagrams; the connections of the result against those the operation is defined by', 'About 2,800 instances: composites of up to four wires, all permutations of up to four wires, 16 diagrams with boxes, adjoints, swaps, spiders and cups under every combinator, 60 diagrams with snakes, twisted wires and sentences for normal forms and rewriters, every CCG rule schema and derivations two rules deep (thorough: nested categories, more pairs of rules). The order of independent boxes and loops of spiders without legs are not compared.'),
 'C20': (AI + ' of the drawing code with a recording page; the page is read back and its connections are compared with those of the diagram', 'matplotlib is a model that records what is put on the page; about 1,800 obligations on 50 grammar diagrams, 33 circuits, 11 pregroup diagrams, 17 diagrams with frames, 19 text drawings and the derivations of every CCG rule, with every documented option of draw, draw_pregroup, draw_equation and render_as_str. Where wires run between frames, sizes of marks, GIFs and what LaTeX or matplotlib make of the calls are not decided; one TikZ option that an existing test expects is listed as known.'),
 'C21': (AI + ' of to_tn and eval on concrete diagrams of opaque tensors; the recorded connections against the wiring of the diagram', 'numpy and tensornetwork are models of their interface: arrays are opaque entries with an order of axes; the entries of gates and the contraction itself are not analysed; adjoints of generic mixed boxes are listed as known.'),

 'C14': (AI + ' of the exporters, the importer and the drawing-independent form on concrete circuits, histories of wires compared', 'pytket, PennyLane, torch and sympy are models of their interface; every gate kind, alone and controlled, adjoint and conjugate, with unknown parameters, plus circuits with preparations, measurements, discards and post-selections between gates; three unrepaired orders of discards before post-selections are listed as known.'),
 'C16': ('interprocedural effect and order-taint dataflow over every function of the package; dominance of seeding over the first draw on the control-flow graph of each trainer\'s construction', 'Generators inside third-party simulators and optimisers are out of view, except for the seed that lambeq hands to a pytket backend; the order of floating-point sums is not tracked.'),
 'C08': ('interprocedural effect analysis (access paths, summaries to a fixed point) of every function of the package: what a call may write in the objects it is given', 'Field-based heap abstraction; unresolved external calls are taken from a table of mutating methods; documented in-place operations are exempt.'),
 'C12': (AI + ' of every batch method on batches of unknown sentences', 'Models, taggers, services and tree constructors are stand-ins that fail or succeed per sentence; batches of up to three (thorough: four) sentences with every combination of working, failing and blank ones, each stage failing in turn; handlers and the hand-over of the flag are followed in the control-flow graph.'),
 'C09': (CF + 'liveness of what the epoch loop and the optimiser step carry over, matched with the entries stored and the keys read back', 'Locations are access paths; state inside torch optimisers and modules is taken to be what their state_dict holds; the entry dictionaries must be displays, updates or helpers that build them.'),
 'C13': (CF + 'dataflow over the fact sets of every path through download_model and _prepare_model_artifacts', 'Dynamically computed attribute names and file operations behind unresolved calls are not seen; what an interrupted system call leaves on disk is not modelled.'),
 'C11': (CF + 'must-restore dataflow for shared containers, attributes and weights', 'Locations are access paths; in-place changes made by code outside the repository (torch, jax) are not seen.'),
 'C10': (CF + 'typestate of the written file up to the rename onto the saved path', 'Any call may raise at any point; the rename itself is taken as atomic; classification of path expressions is syntactic up to aliases and helpers.'),
 'C17': (AI + ' of Dataset on lists of unknown examples and labels', 'Examples and labels are unknowns; up to 6 (thorough: 12) of them, every batch size up to one more than that, four permutations for what a shuffle does, two passes each.'),
 'C18': (AI + ' of every concrete ansatz on concrete boxes', 'Every concrete subclass of CircuitAnsatz and TensorAnsatz, up to 13 settings each; 15 to 24 boxes with up to five wires, all pairs of them; the box label on its own on 120 boxes.'),
 'C15': (AI + ' of __eq__, __hash__ and __repr__ on pairs of objects that differ in one attribute', 'One base object per class and one variation per attribute, with concrete names, types and data; the comparison methods are evaluated from the source in both orders.'),
 'C04': (AI + ': every rewrite rule and diagram rewriter applied to generic boxes and diagrams', 'Word and box names are unknowns or a fixed spelling; boundaries enumerate adjoint patterns of up to five distinct atoms; diagrams of up to nine wires; sessions of up to five applications.'),
 'C03': (AI + ': rule schemas instantiated with generic categories', 'Metavariables are distinct atoms, and one or all of them complex (thorough: nested); derivation trees up to two rules deep; rule-name tables are read from the source.'),
 'C07': (AI + ': functor application histories on generic arrows', 'One arbitrary object and arrow map per target category; every arrow class, up to three applications; ill-typed maps are tried on each way a box can be reached.'),
 'C06': (AI + ': lambdify and model substitution on generic instances', 'Names, symbols and values are unknowns; adjoint order, flags, control distance and symbol order are enumerated.'),
 'C01': (AI + ': encoder and decoder composed on generic instances', 'Names and types are unknowns; adjoint order, flags and nesting depth are enumerated to a small bound; str() and CCGType.parse are assumed inverse for categories.'),
 'C02': (AI + ' over free-pregroup types', 'Boundaries are computed as terms of the free pregroup on generator types of symbolic length; cap/cup/swap/spider/permutation constructors on bounded numbers of distinct wires.'),
 'C05': (AI + ' on generic instances of every box class', 'Names, data, types and phases are unknowns; adjoint order, flags and control distances are enumerated; diagrams on three generic layers.'),
}
NA = {}

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    na, checks = [], []
    for p in PROPS:
        i = p['id']
        if i in CHECKS:
            tech, note = CHECKS[i]
            checks.append(dict(property=i, quick_cmd=f'python3 -m lint.run {i} --tier quick',
                               thorough_cmd=f'python3 -m lint.run {i} --tier thorough',
                               evidence_file=f'evidence/{i}.json', technique=tech, level='other', level_note=note))
        else:
            na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
    m = dict(version=1, setup_cmd='python3 -m compileall -q lint', checks=checks, not_applicable=na)
    with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')
    print(len(PROPS), 'properties;', len(checks), 'claimed')
