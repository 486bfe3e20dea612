PROPS = [
dict(id='P01', title='Resolution of a document sequence does not depend on arrival order',
  statement='Whatever order the documents of a sequence arrive in, after every arrival each document is active from its computed begin until the earliest of its computed end and the begin of any later-numbered document received so far, and one for which that leaves nothing is discarded. At any instant at most one document is active, asking what is active in a time range gives exactly the documents whose resolved interval meets it, and a document is found by its number. A document that does not belong (other sequence, time base, clock mode or authors group, or a number already there) is refused with an error that says so and changes nothing.',
  over=['histories', 'inputs'], all='every set of documents with any numbers, begins and ends, in every arrival order, with refused documents anywhere in between',
  why='The tests feed a dozen fixed sequences in a few orders; the guarantee is about every order of arrival and every overlap of intervals, whose number grows factorially.',
  files=['documents/ebutt3.py', 'documents/base.py'],
  mech=[('trimming and discarding on the timeline', 'documents/ebutt3.py: EBUTT3DocumentSequence._insert_or_discard'), ('override by a later number', 'documents/ebutt3.py: EBUTT3DocumentSequence._override_sequence'), ('refusal', 'documents/ebutt3.py: EBUTT3DocumentSequence._check_document_compatibility')],
  observe=['resolved begin and end of every document', 'range look-up on the sequence', 'the error raised'],
  technique='exhaustive enumeration of arrival histories on the real sequence object against a reference model'),
dict(id='P02', title='Computed times follow the timing rules for every document tree',
  statement='For every tree of body, div, p and span with any combination of begin, end and dur, in any time base and notation, the computed begin and end of every element and of the document are those the EBU-TT Part 3 timing rules give, taking the availability time into account. Elements whose end is not after their begin do not influence their parents. Validating again, or moving the availability time, gives what a fresh document would give.',
  over=['inputs'], all='every nesting and every combination of timing attributes and availability times',
  why='The tests pick a few dozen timings from tables; nesting makes the combinations multiply (syncbase, ancestor limits, endless leaves) and each interacts with the availability time.',
  files=['bindings/validation/timing.py', 'bindings/__init__.py', 'documents/ebutt3.py'],
  mech=[('begin and end stacks of the traversal', 'bindings/validation/timing.py: TimingValidationMixin'), ('rules of the body', 'bindings/validation/timing.py: BodyTimingValidationMixin')],
  observe=['computed begin and end of every element and of the document'],
  technique='exhaustive enumeration of timed trees on the real validation against a reference model'),
dict(id='P03', title='A segment shows exactly what its document shows in that window',
  statement='For every document and every window of time, the segment cut out of the document shows at every instant inside the window exactly the text, with exactly the styles, regions, languages and roles, that the document shows then, and nothing outside the window. The segment is a valid document with the attributes of the original, whose ids can be made distinct and whose style and region references all lead to definitions that mean the same. Cutting changes nothing in the document it was cut from.',
  over=['inputs'], all='every document and every window, including open-ended ones and ones in which nothing shows',
  why='The tests compare a few segments of fixed documents; trimming, pruning of unused definitions and the dropping of empty containers depend on how every window meets every nesting.',
  files=['documents/ebutt3_segmentation.py', 'bindings/__init__.py', 'bindings/validation/timing.py', 'bindings/validation/content.py', 'bindings/validation/presentation.py'],
  mech=[('copying traversal', 'documents/ebutt3_segmentation.py: EBUTT3Segmenter'), ('moving the timing to the leaves', 'bindings/validation/timing.py: _semantic_copy_apply_leaf_timing'), ('pruning of unused styles and regions', 'documents/ebutt3_segmentation.py: _prune_orphan_elements')],
  observe=['XML of the segment', 'XML of the document before and after'],
  technique='exhaustive enumeration of documents and windows on the real segmenter against an independent presentation model'),
dict(id='P04', title='Re-sequencing keeps what the sequence shows at each instant',
  statement='For every history of arriving documents, the merged document asked for any window of the sequence shows at every instant exactly what the document active at that instant shows, with its own styles and regions even if documents use the same ids for different things. A re-sequencing node emits contiguous windows of equal length, numbered 1, 2, 3 and so on in its own sequence, each according to what has arrived when it is asked for. Throwing away documents that are over makes no difference to what is emitted.',
  over=['histories', 'inputs'], all='every interleaving of document arrivals, in and out of order, with requests for segments, for every window',
  why='The tests merge a few prepared sequences; which documents a window meets, in what trimmed state and with which clashing ids depends on the whole history.',
  files=['documents/ebutt3.py', 'documents/ebutt3_splicer.py', 'documents/ebutt3_segmentation.py', 'bindings/__init__.py', 'node/consumer.py'],
  mech=[('extraction from the sequence', 'documents/ebutt3.py: EBUTT3DocumentSequence.extract_segment'), ('merging', 'documents/ebutt3_splicer.py: EBUTT3Splicer'), ('segment clock', 'node/consumer.py: ReSequencer.convert_next_segment'), ('discarding of the past', 'documents/ebutt3.py: EBUTT3DocumentSequence.discard_before')],
  observe=['XML of the merged documents', 'number and sequence of the emitted documents'],
  technique='exhaustive enumeration of arrival and request interleavings on the real node against a reference model'),
dict(id='P05', title='Computed styles follow the cascade for every document tree',
  statement='For every tree of styled elements and every graph of styles that refer to each other, each element has the computed style that the TTML cascade gives: own references (a later one and those nearer override), then the parent, then the region it lies in, then the initial value, where background, padding and unicodeBidi are not inherited. Font sizes come out in cells, percentages relative to the parent (at the top to the region, else to 1c) and pixels by extent and cell resolution; a relative line height is taken from the font size where it is specified. References that are missing or go round in a circle are refused when used, and validating again changes nothing.',
  over=['inputs', 'configurations'], all='every combination of style values over all levels of nesting, and every graph of references',
  why='The tests give one value at a time to a fixed chain of four elements; percentages that are deferred until a region is known, several references and circles combine freely.',
  files=['bindings/__init__.py', 'bindings/validation/presentation.py', 'bindings/_ebuttdt.py'],
  mech=[('cascade', 'bindings/__init__.py: style_type.compute_style, compute_font_size, compute_line_height'), ('order of references', 'bindings/__init__.py: style_type.ordered_styles'), ('region of an element', 'bindings/validation/presentation.py: RegionedElementMixin')],
  observe=['computed_style of every element', 'error raised'],
  technique='exhaustive enumeration of styled trees and reference graphs on the real validation against a reference model'),
dict(id='P06', title='EBU-TT-D made from a document is valid and shows the same, in media time',
  statement='For every document as a re-sequencing node emits it (times on paragraphs and spans, no nested divisions or spans), the EBU-TT-D encoder emits one valid EBU-TT-D document in which every text has the same begin and end less the media time zero (in media time unchanged), region, language, roles, colours and other style values, vertical font size and line height, in either form of namespace. Reading it back gives the same document, and the source is not changed.',
  over=['inputs', 'configurations'], all='every document within what EBU-TT-D can say, every media time zero',
  why='The tests only check that a few conversions are valid XML; font sizes are recomputed from a cascade, styles are rewritten, and times depend on the clock mapping.',
  files=['bindings/converters/ebutt3_ebuttd.py', 'documents/ebuttd.py', 'node/encoder.py', 'clocks/media.py', 'bindings/__init__.py'],
  mech=[('font size and line height', 'bindings/converters/ebutt3_ebuttd.py: EBUTT3EBUTTDConverter._fix_fontsize'), ('times', 'bindings/converters/ebutt3_ebuttd.py: EBUTT3EBUTTDConverter._process_timing_type')],
  observe=['XML emitted by the encoder', 'document read back'],
  technique='exhaustive enumeration of documents on the real encoder, judged by an independent reading of both XML documents'),
dict(id='P08', title='A delayed document means the same, later by exactly the delay',
  statement='For every document and every delay, the document a retiming delay node emits has every computed begin and end, of every element and of the document, later by exactly the delay, and its XML read again says the same; two delay nodes in a row add up. Nothing else changes but the sequence identifier and the trail of applied processing. Live messages pass unchanged.',
  over=['inputs'], all='every nesting of timing attributes, in every time base, and every delay',
  why='The tests delay a few documents; where the delay has to be added depends on which ancestor is the first to say a time.',
  files=['node/delay.py', 'documents/ebutt3.py', 'bindings/__init__.py', 'bindings/_ebuttdt.py'],
  mech=[('where the delay is added', 'node/delay.py: RetimingDelayNode.update_children_timing, update_body_timing, is_explicitly_timed')],
  observe=['computed times of the emitted document', 'XML of the emitted document'],
  technique='exhaustive enumeration of timed trees and delays on the real node, judged by computed times before and after'),
dict(id='P10', title='A handover node switches only by its rules and numbers its output without gaps',
  statement='For every history of documents arriving from several sequences, a handover node emits exactly the documents of the sequence that is selected, where the selection moves to another sequence only through a document of the same authors group whose token is greater than the last one that counted. What it emits is numbered contiguously from 1 in its own sequence, says which sequence was selected, and is otherwise unchanged. Documents without group or token, of another group, repeated or of unselected sequences are never emitted, and live messages always pass, in the sequence of the node.',
  over=['histories'], all='every order of arrival of documents of several sequences with any tokens, repetitions included',
  why='The tests play one or two scripted handovers; the rules are about all orders of tokens and sequences.',
  files=['node/handover.py', 'node/base.py', 'node/consumer.py'],
  mech=[('selection', 'node/handover.py: HandoverNode.process_document'), ('repetitions', 'node/base.py: AbstractNode.check_if_document')],
  observe=['documents emitted, with their numbers', 'error raised'],
  technique='exhaustive enumeration of arrival histories on the real node against a reference model'),
dict(id='P09', title='Chains of nodes lose, repeat and mix up no documents',
  statement='For every chain of nodes (handover, retiming delay, deduplicator, distributor, buffer delay, EBU-TT-D encoder) wired by direct carriage, and every history of documents and messages given to it as text, what comes out is the text of the processed documents, labelled with their own sequence and number and the availability time of the original. A distributor passes every document of any sequence once, with its own text where it has one; a buffer delay passes everything unchanged, and delays add up; retiming delay and deduplicator pass each document of one sequence once under their own identifier and refuse other sequences and their own; an encoder converts the documents of one sequence. A consumer keeps the documents of one sequence, sets the availability time only where none is given and ignores repetitions.',
  over=['histories'], all='every chain of up to three nodes and every history of documents, repetitions, strangers and messages',
  why='The tests run each node alone with mocked carriages; what one node hands to the next, and repetitions and strangers in any order, are not covered.',
  files=['node/base.py', 'node/delay.py', 'node/distributing.py', 'node/deduplicator.py', 'node/handover.py', 'node/encoder.py', 'node/consumer.py', 'adapters/document_data.py', 'adapters/node_carriage.py', 'carriage/direct.py'],
  mech=[('repetitions and strangers', 'node/base.py: AbstractConsumerNode.check_if_document_seen, limit_sequence_to_one'), ('conversion between nodes', 'adapters/node_carriage.py: AbstractNodeCarriageAdapter'), ('direct carriage', 'carriage/direct.py: DirectCarriageImpl')],
  observe=['text that comes out of the chain and its labels', 'error raised'],
  technique='exhaustive enumeration of chains and arrival histories on the real nodes against a composed reference model'),
dict(id='P12', title='A folder of documents is complete and readable wherever the writer stops',
  statement='At every moment of writing documents and messages to a folder, whoever is listed in a manifest is there with exactly its text (any characters, any length), and a stop at that moment leaves every document written before intact. Each sequence has its own manifest, which lists its documents in the order of writing with their availability time (to the millisecond, plus any delay), and reading it gives back every text with its time; a program started again on the folder continues the manifests. A rotating buffer of N files keeps the last N complete ones, and where manifests are suppressed none is written.',
  over=['crash_points', 'histories', 'inputs'], all='every history of writings of several sequences and every point at which the writer is killed',
  why='The tests write a few files and look at the end; what is on disk at each moment in between, and combinations of sequences, delays, restarts and buffers, are not looked at.',
  files=['carriage/filesystem.py', 'utils.py'],
  mech=[('writing the file, then listing it', 'carriage/filesystem.py: FilesystemProducerImpl.emit_data'), ('reading back', 'carriage/filesystem.py: FilesystemReader.resume_reading')],
  observe=['content of the folder at every executed line', 'what the real reader gives'],
  technique='exhaustive enumeration of writing histories with every kill point on the real file system, and replay by the real reader'),
dict(id='P13', title='A reader following a manifest gets every document whole, once and in order',
  statement='For every interleaving of a writer and of readers that follow its manifest, each reader is given every document listed, with its complete text and its availability time, exactly once and in the order of writing, including what was there before, and never fails; a reader that does not follow gives what was there when it looked, in order.',
  over=['schedules'], all='every interleaving of writer and readers, statement by statement, up to a number of preemptions',
  why='The tests read folders that are not changing; a window between listing and completing a document only shows under particular interleavings.',
  files=['carriage/filesystem.py'],
  mech=[('following the manifest', 'carriage/filesystem.py: FilesystemReader.resume_reading'), ('order of writing', 'carriage/filesystem.py: FilesystemProducerImpl.emit_data')],
  observe=['documents given to the node behind the reader'],
  technique='stateless exploration of all interleavings (preemption-bounded) of the real writer and reader under a controlled scheduler'),
dict(id='P14', title='A rotating buffer deletes exactly the files that fell out of it',
  statement='For every interleaving of adding files with their deletion in the background, and whatever deletions fail at first or find the file gone, a file among the last N added is never deleted, every older one is gone in the end, and a failing deletion prevents no other.',
  over=['schedules', 'fault_sequences'], all='every interleaving of the adding and the deleting thread and every pattern of failing deletions within the bounds',
  why='The tests delete a few files without failures; which deletion fails when, and what the other thread does then, depends on the schedule.',
  files=['utils.py'],
  mech=[('falling out of the buffer', 'utils.py: RingBufferWithCallback.append'), ('deleting thread', 'utils.py: RotatingFileBuffer._delete_thread_loop, _do_delete')],
  observe=['files present after every step'],
  technique='stateless exploration of all interleavings (preemption-bounded) with enumerated deletion faults on the real threads'),
dict(id='P17', title='Reading and writing a document loses, adds and reorders nothing',
  statement='For every document that is accepted, what is written after reading it has the same elements, attributes, text and metadata in the same order, with values that denote the same (times as instants), whatever white space, entities or mixed content the text has. Writing does not change the document, and after any sequence of validating, segmenting, passing it through the XML adapters, and writing and reading again it still says the same.',
  over=['inputs', 'histories'], all='every valid document with any attributes, metadata and content, and every sequence of such operations',
  why='The tests read and write a few documents and compare little; attributes, metadata and content combine freely, and pretty printing touches all text.',
  files=['bindings/pyxb_utils.py', 'bindings/__init__.py', 'documents/ebutt3.py', 'adapters/document_data.py'],
  mech=[('pretty printing', 'bindings/pyxb_utils.py: dom_to_pretty_xml'), ('writing', 'bindings/__init__.py: tt_type.toxml, documents/ebutt3.py: EBUTT3Document.get_xml')],
  observe=['XML before and after'],
  technique='exhaustive enumeration of documents and of operation histories on the real code, compared by an independent XML reader'),
dict(id='P16', title='A document is accepted exactly if it follows the rules, each on its own',
  statement='A document is accepted exactly if its XML is well formed, the elements and text stand where the schema allows them, its attributes have values of their types, the parameters of tt fit together, ids are unique, references lead to a style or region that is there, and pixel values are used only with an extent of tt; otherwise it is refused with an error. The verdict, and what an accepted document says, do not depend on what was read before, nor on what another thread reads at the same time.',
  over=['inputs', 'histories', 'schedules'], all='every document up to the bounds, every history of reads of documents of different kinds, and every interleaving of two threads that read',
  why='The tests try one or two wrong values of an attribute in one context each; the parameters, values and structures combine, and the state kept while parsing is shared by all documents.',
  files=['bindings/__init__.py', 'bindings/_ebuttdt.py', 'bindings/pyxb_utils.py', 'bindings/validation', 'documents/ebutt3.py', 'xsd'],
  mech=[('parameters of tt', 'bindings/__init__.py: tt_type._semantic_before_traversal'), ('state while parsing', 'bindings/pyxb_utils.py: xml_parsing_context'), ('pixels need an extent', 'bindings/_ebuttdt.py: _semantic_validate_sizing_context'), ('unique ids', 'bindings/validation/base.py: IDMixin')],
  observe=['EBUTT3Document.create_from_xml', 'the document that results'],
  technique='exhaustive enumeration of documents, histories of reads and two-thread schedules on the real code against a separate statement of the rules'),
dict(id='P07', title='Removing duplicate styles and regions changes nothing that is shown',
  statement='For every document, the deduplicator leaves exactly one of each set of styles, and of regions, that are equal but for their ids, with an id that was there, and everything is shown with exactly the same style and region as before. All references (from elements, regions and other styles, in either direction) lead to what is left, none is repeated, and of repeated ones the last counts. Nothing else in the document changes but its sequence identifier.',
  over=['inputs'], all='every set of definitions of styles and regions with any attributes and references among them, and every list of references to them',
  why='The tests count the styles left in a few documents and do not look at what the references mean; precedence, chains of references and attributes that only look alike matter.',
  files=['node/deduplicator.py'],
  mech=[('equal definitions', 'node/deduplicator.py: ComparableElement, DeDuplicatorNode.CollateUniqueVals'), ('replacing references', 'node/deduplicator.py: ReplaceStylesAndRegions')],
  observe=['XML of the document emitted'],
  technique='exhaustive enumeration of definitions and references on the real node against an independent reading of the cascade'),
dict(id='P18', title='Times and lengths denote the same however they are written and converted',
  statement='Every time that a document may contain denotes exactly the time its notation says, in the time bases it is allowed in and in no other. Every time that is set by the program is written, in each type, as one that denotes the same to the millisecond and is read back as such; one that does not fit is refused. Every length has exactly the numbers and signs it is written with, and conversions between cells and pixels are exact and back.',
  over=['inputs'], all='every text and every time or pair of numbers within the alphabets, for every type, time base and attribute',
  why='The tests convert a handful of values; rounding, carries, units, signs and time base combine.',
  files=['bindings/_ebuttdt.py', 'bindings/__init__.py'],
  mech=[('reading and writing times', 'bindings/_ebuttdt.py: as_timedelta, from_timedelta'), ('type by time base', 'bindings/__init__.py: tt_type.get_timing_type; bindings/_ebuttdt.py: _TimedeltaBindingMixin'), ('lengths', 'bindings/_ebuttdt.py: TwoDimSizingMixin, cells_to_pixels, pixels_to_cells')],
  observe=['values of the types', 'attributes and computed times of documents'],
  technique='exhaustive enumeration of texts and values on the real types against exact fractions'),
dict(id='P15', title='Documents sent over WebSocket reach exactly the subscribers of their sequence',
  statement='For every history of connections opening, closing and being lost, every document sent is given to each node connected for its sequence at that time exactly once, in order and with exactly its text, whichever side listens, and to no other; the sequence is the one in the path of the connection with percent-encoding undone once. A connection to a path that means nothing there, data sent in the wrong direction, data that is not a valid document and a document of another sequence each end that connection, and no other is affected by it.',
  over=['histories', 'schedules', 'inputs'], all='every history of connecting, sending and ending, every order of arrival of bytes, every identifier and length within the bounds',
  why='The tests use one server and one client at a time with mocked ends; what several connections do to each other, orders of arrival and what is left after a refusal are not covered.',
  files=['twisted/websocket.py', 'carriage/websocket.py', 'config/backend.py', 'adapters/document_data.py'],
  mech=[('path, direction and refusal', 'twisted/websocket.py: BroadcastServerProtocol, BroadcastClientProtocol'), ('registration', 'twisted/websocket.py: BroadcastServerFactory, BroadcastClientFactory, TwistedWSPushProducer'), ('who listens and connects', 'config/backend.py: TwistedBackend.ws_backend_producer, ws_backend_consumer'), ('sequence of the connection', 'adapters/document_data.py: XMLtoEBUTT3Adapter')],
  observe=['what the nodes behind the connections are given', 'which connections are open'],
  technique='exhaustive enumeration of connection histories and of orders of delivery on the real protocols over a simulated network against a reference model'),
dict(id='P20', title='A configuration wires exactly the nodes, carriages and parameters it names',
  statement='For every configuration, each node gets exactly the documents given to the pipe, folder or WebSocket it reads from, and what it emits arrives exactly where its output leads, whatever numbers the nodes have and in whatever order they are written. Every parameter has the effect its description says, given as a value or as text, in the file or in its place on the command line, and the described default where it is not given: delays, identifiers, intervals, segment length and begin of output by the chosen clock, file names, number of files kept, media time zero. A configuration that names a type that does not exist, or an adapter, number, time, address or file that does not fit, is refused with an error when the application is made.',
  over=['configurations', 'histories'], all='every configuration of nodes, carriages and parameters, in every numbering of the nodes',
  why='The tests make a few configurations of one node and look at what was created; which node is connected to which by which pipe, and what parameters do in a running system, is not covered.',
  files=['config', 'adapters/node_carriage.py', 'carriage', 'node'],
  mech=[('nodes and their parameters', 'config/node.py'), ('carriages and pipes', 'config/carriage.py: DirectCommon, FilesystemOutput, WebsocketOutput'), ('start and timing', 'config/backend.py: BackendBase, TwistedBackend'), ('choice of adapters', 'adapters/node_carriage.py: AbstractNodeCarriageAdapter')],
  observe=['content of the folders written', 'times at which segments come out', 'error raised'],
  technique='exhaustive enumeration of configurations on the real application with a simulated network and clock against composed reference models'),
dict(id='P21', title='The user input page sends exactly what was typed, once and in order',
  statement='Every document or message that the user input page sends is accepted by the toolkit and says, line by line and whatever the characters, the text that was in the box when it was sent or scheduled, with the selected sequence, its parameters, the token and the times entered; it is sent exactly once, at the moment of the action, of the interval or of the chosen clock it was scheduled for, and only over an open connection, whose address names the sequence percent-encoded. The numbers of a sequence count up from 1 and never repeat, also after the page is loaded again or the sequence is created again. What is received is listed as it is, the last ten at most, the selected sequence is shown on air exactly while the last document received selects it, and no number of actions or idle time leaves more timers running.',
  over=['histories', 'inputs', 'schedules'], all='every sequence of actions of the user, the connection and the clock, every text and identifier, within the bounds',
  why='No test runs the script of the page; what it sends depends on the history of actions, modes, reloads and connections.',
  files=['ui/user_input_producer/uip.js', 'ui/user_input_producer/index.html', 'ui/user_input_producer/template'],
  mech=[('documents and numbers', 'ui/user_input_producer/uip.js: createDocument, sequence numbers in the storage'), ('sending now, at a time and at intervals', 'ui/user_input_producer/uip.js: schedules and timers'), ('escaping', 'ui/user_input_producer/template; uip.js: rendering')],
  observe=['what is sent over the WebSocket and when', 'what the page shows'],
  technique='exhaustive enumeration of sequences of actions on the real page in a simulated browser, clock and connection against a reference user'),
dict(id='P22', title='The producer of a text says every word once, in order, on lines that fit',
  statement='Every text is cut into subtitles that say all its words in their order, none lost, repeated or cut, on one line or, where they do not fit, two, without spare white space and of 38 characters at most unless a single word is longer, and no subtitle goes on after a blank line. Each subtitle becomes one document that says exactly its lines, numbered from 1 without gaps, in an existing region and style, shown for the second that begins one second after it was produced by the clock of the sequence; without a text it says that time. When the text is at its end the producer says so and emits nothing more.',
  over=['inputs', 'histories'], all='every text over alphabets of words and separators around the limits, every list of subtitles and time within the bounds',
  why='The tests cut one text and look at a few documents; lengths around the limit, separators and the end combine.',
  files=['utils.py', 'node/producer.py', 'documents/ebutt3.py'],
  mech=[('cutting', 'utils.py: tokenize_english_document'), ('documents', 'node/producer.py: SimpleProducer.process_document')],
  observe=['lines of the subtitles', 'XML of the documents emitted'],
  technique='exhaustive enumeration of texts and lists of subtitles on the real function and node against the text and the clock'),
dict(id='P23', title='A clock tells the time it is named for, and runs on from its last adjustment',
  statement='For every history of adjustments, fixed times and passing time, in every time zone, the local and the UTC clock tell the local and the UTC time of the day, and a media clock tells the time it was last adjusted to plus the time that passed since the local time it was adjusted at, also through midnight, and maps a given local time to media time by the same adjustment. While fixed-time mode is on, exactly the last registered fixed time is told instead, and the real time is not changed by it; wrong values are refused and change nothing. The clock of a document or a sequence is the one its time base and clock mode name.',
  over=['histories'], all='every history of adjustments, fixed times and passing time',
  why='The tests make each clock and check the type of what it tells; what it tells, after which history, is not covered.',
  files=['clocks'],
  mech=[('times of the day', 'clocks/local.py, clocks/utc.py'), ('interpolation', 'clocks/media.py: MediaClock'), ('fixed time', 'clocks/base.py: Clock'), ('choice by document', 'clocks/__init__.py: get_clock_from_document')],
  observe=['get_time', 'get_real_clock_time', 'get_media_time'],
  technique='exhaustive enumeration of operation histories on the real clocks under a simulated machine time against a reference model'),
]
NOT_CLAIMED = []
