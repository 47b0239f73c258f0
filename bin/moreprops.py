# further properties are added here as their checks are built
prop('P07', 'Editing steps by any clients change exactly what they say and nothing else',
     'After any interleaved sequence of splitting compound lines, isolating, inserting, replacing, relabelling, commenting and indenting statements and substituting, inserting or appending text or single tokens, the file holds exactly the statements, labels and order that a plain list edited the same way holds, and all comments and preprocessor lines are still there. '
     'Lines that an operation does not concern keep their text to the character. '
     'Saving the file at any moment (retrying after write failures) and reading it back yields the same statements and text, so that editing can continue on the re-read file.',
     ['histories', 'schedules', 'inputs', 'fault_sequences'],
     'all sequences and interleavings of editing operations on all source files of both forms, with saves that meet write faults',
     'The tests apply one or two edits to fixed samples; positions kept inside statements go wrong only after particular sequences on particular layouts.',
     [F + 'Logical_File.cc', F + 'Logical_Line.cc', F + 'LL_Stmt.cc', F + 'LL_Stmt.hh', F + 'File_Line.cc', F + 'Token_Text.hh'],
     [('splitting and isolating', F + 'Logical_File.cc: split_compound_before, split_compound_after, isolate_stmt'),
      ('inserting and replacing', F + 'Logical_File.cc: emplace_ll_stmt, replace_stmt_text'),
      ('text substitution and layout bookkeeping', F + 'Logical_Line.cc: replace_fragment, insert_text_after, append_comment, replace_stmt_substr'),
      ('positions of a statement in its line', F + 'LL_Stmt.hh')])
prop('P08', 'Handles to statements and tree positions stay valid while others edit',
     'A handle to a statement obtained at any time keeps denoting the same statement, with its current text, until that statement is removed, whatever other clients insert, split, replace or indent meanwhile. '
     'A position held in the parse tree keeps its kind and covers exactly the statements it covered, plus those inserted between its first and last one. '
     'The statement tree of a statement, asked for after any history of edits, is that of its current text.',
     ['histories', 'schedules', 'inputs'],
     'all interleavings of clients holding handles or tree positions with clients that edit, on all source files of both forms',
     'No test holds a handle or a tree position across edits made elsewhere.',
     [F + 'Safe_List.hh', F + 'Logical_File.cc', F + 'Parsed_File.hh', F + 'Prgm_Tree.hh', F + 'LL_Stmt_Src.hh', F + 'LL_TT_Range.hh'],
     [('list with stable positions', F + 'Safe_List.hh'),
      ('hook from statement to tree', F + 'LL_Stmt.hh: hook_info, ' + F + 'Parsed_File.hh: stmt_to_node_cursor'),
      ('statement tree on demand', F + 'LL_Stmt.hh: stmt_tree, ' + F + 'parse_stmt.cc')])
prop('P13', 'Procedure editors alive at the same time keep every region correct',
     'For every procedure of a file, including nested, separate and main programs without a header, the regions for uses, imports, implicit part, declarations, execution part and contained procedures partition its statements exactly as the text does, and keep doing so after any interleaved sequence of insertions, renames, end-statement completions and replacements made through any of the editors. '
     'A statement inserted at the beginning, before the last or at the end of a region appears at that place, is reported as in that region, and does not alter any other procedure. '
     'Renaming and completing change exactly the header and end statements concerned, and the labels reported are those of the statements in the procedure.',
     ['histories', 'schedules', 'inputs'],
     'all interleavings of operations by editors on all procedures of a file, nested ones included',
     'The tests use one editor on one small procedure and few operations.',
     [F + 'Procedure.hh', F + 'Range_Partition.hh', F + 'Procedure_Visitor.hh', F + 'Logical_File.cc', F + 'Safe_List.hh'],
     [('partition into regions', F + 'Range_Partition.hh, ' + F + 'Procedure.hh: ingest'),
      ('insertion into a region', F + 'Procedure.hh: emplace_stmt'),
      ('rename and end statement', F + 'Procedure.hh: rename, complete_end_stmt'),
      ('label scan', F + 'Procedure.hh: scan_out_labels')])
prop('P06', 'Uses of the library in one process do not influence each other',
     'When several files are read, parsed, queried and edited in one process with the calls interleaved in any order, every call answers exactly as it does when its file is handled alone in a fresh process. '
     'This includes uses that are abandoned half way: an input that breaks off, a missing file, an allocation failure or text that is not Fortran leaves nothing behind that changes a later answer. '
     'No answer depends on the previous contents of memory.',
     ['schedules', 'histories', 'fault_sequences', 'inputs'],
     'all interleavings of sessions on all sets of files, with sessions that fail at any point among them',
     'Every test handles one text after the other, none after a failure.',
     [F + 'Logical_Line.cc', F + 'scan_fort.l', F + 'Logical_File.cc', F + 'Parsed_File.hh', F + 'Syntax_Tags.cc', F + 'Label_Stack.hh', F + 'TT_Stream.hh'],
     [('global scanner and its position counter', F + 'scan_fort.l, ' + F + 'Logical_Line.cc: tokenize'),
      ('static tables', F + 'Syntax_Tags.cc, ' + F + 'TT_Stream.hh'),
      ('parser state per file', F + 'Prgm_Parsers.hh: State')])
prop('P09', 'Answers about a file do not depend on when or in what order they are asked',
     'Lines, statements, the parse tree, statement trees, statement kinds, places in the tree, procedures and labels of a file are the same whichever questions were asked before, whether computed on demand or in advance, and whether the file object was moved in between. '
     'Asking twice gives the same answer, and asking never changes the text. '
     'Indenting gives the same text and the same report whatever was asked before it, and moving through the tree step by step sees the same tree as a traversal.',
     ['histories', 'inputs'],
     'all orders and repetitions of questions, moves and indentations on all files',
     'Tests ask each question once, in one order, on a fresh object.',
     [F + 'Parsed_File.hh', F + 'LL_Stmt.hh', F + 'LL_Stmt.cc', F + 'Tree.hh', F + 'Prgm_Tree.hh', F + 'Procedure_Visitor.hh', F + 'Prgm_Parsers_impl.hh'],
     [('lazy evaluation', F + 'Parsed_File.hh: prefetch_statements, prefetch_parse_tree'),
      ('statement tree on demand', F + 'LL_Stmt.hh: stmt_tree'),
      ('cursor moves', F + 'Tree.hh: TN_Cursor')])
prop('P14', 'Statement extensions take effect exactly as registered, in order',
     'After any history of registering and clearing extension parsers, a statement that the standard parsers do not know is recognised if and only if a currently registered parser of its kind accepts it, and the first registered one that does decides its tag; a parser that gives up after consuming tokens does not disturb the next. '
     'Files without extension statements parse as they do without extensions, files parsed earlier keep their trees, and a statement parsed again uses the extensions registered then. '
     'Labels of extension tags are those registered, and default ones otherwise.',
     ['histories', 'inputs', 'configurations'],
     'all histories of registrations, clearings and parses over all sets of extension parsers and files',
     'The demonstration program registers one extension once; no test touches the registry.',
     [F + 'Stmt_Parser_Exts.cc', F + 'Stmt_Parser_Exts.hh', F + 'parse_stmt.cc', F + 'Syntax_Tags.cc', F + 'Syntax_Tags.hh', F + 'LL_Stmt.cc'],
     [('registry and order of trial', F + 'Stmt_Parser_Exts.cc'),
      ('call of the registry', F + 'parse_stmt.cc: action_stmt, other_specification_stmt'),
      ('labels', F + 'Syntax_Tags.cc: register_ext, label')])
prop('P17', 'Instrumenting a file adds exactly the calls, redirects returns, loses nothing',
     'For every valid program the instrumentation tool, alone or in a chain with the formatter and the module tool and with any stage failing, crashing and being repeated, produces a text in which each executable program unit and procedure that is not internal, pure or elemental begins its execution part with the begin call and ends it with the end call naming it, every earlier return is a branch to a label carried by that end call and used by no other statement there, and every other statement, label, comment and directive is as before. '
     'A file without such a procedure is reported by a nonzero status and no output. '
     'A stage that reports success has done its whole work on the result of the stage before.',
     ['histories', 'fault_sequences', 'crash_points', 'inputs'],
     'all chains of tool runs on all programs, with faults and crashes at any stage',
     'The instrumentation tool has no test at all, and no test feeds the output of one tool to another.',
     ['apps/caliper.cc', F + 'Procedure.hh', F + 'Procedure_Visitor.hh', F + 'Logical_File.cc', F + 'Logical_Line.cc', F + 'Prgm_Parsers_impl.hh'],
     [('instrumentation', 'apps/caliper.cc: caliper_procedure, convert_return_stmts'),
      ('insertion and replacement in regions', F + 'Procedure.hh: emplace_stmt, replace_stmt'),
      ('visiting the procedures', F + 'Procedure_Visitor.hh')])
prop('P16', 'Damaged input is refused or kept to the character, never half understood',
     'Given a file that storage damaged in any way (cut off, blocks zeroed, lost, repeated or replaced by noise, characters or lines changed), every reader ends in bounded time without memory errors and either reports failure, offering nothing, or gives back the text it was given. '
     'A tool either reports success with all of the text in its output, or says that it cannot handle the file or stops, and it leaves the input alone unless it rewrites it completely with the original beside it. '
     'After a refusal the same process reads the next file properly.',
     ['inputs', 'fault_sequences'],
     'all damages at all positions of all source files of both forms, all readers and tools',
     'Every file in the tests is well formed; no test changes a byte of its input.',
     [F + 'Logical_File.cc', F + 'File_Line.cc', F + 'Logical_Line.cc', F + 'scan_fort.l', F + 'Parsed_File.hh', F + 'Prgm_Parsers_impl.hh', 'apps/module_base.cc', 'apps/flpr_format_base.cc', 'apps/caliper.cc', 'apps/parse_files.cc'],
     [('classification of lines', F + 'File_Line.cc: analyze_free, analyze_fixed'),
      ('grouping of continued lines and refusal', F + 'Logical_File.cc: scan_free, scan_fixed'),
      ('tokens of arbitrary text', F + 'scan_fort.l, ' + F + 'Logical_Line.cc: tokenize'),
      ('bad state of a parsed file', F + 'Parsed_File.hh')])
prop('P18', 'The parse tree has exactly the structure of the program, before and after edits',
     'For every valid program, however its bytes are delivered and after any history of edits, tool runs and reloads, the parse tree nests program units, procedures, specification and execution parts, constructs and their blocks as the Fortran grammar does, every statement is one leaf of it in text order and of its kind, and every node spans exactly its first to its last statement. '
     'A program that does not have such a structure is refused, or all of its statements are in a tree; it is never accepted in part.',
     ['inputs', 'histories', 'fault_sequences'],
     'all programs of the supported language in both source forms, all histories of edits, saves with faults and reloads',
     'The tests parse single constructs written for them and do not look at trees after edits or reloads, or of malformed programs.',
     [F + 'Prgm_Parsers_impl.hh', F + 'Prgm_Parsers_utils.hh', F + 'Prgm_Tree.hh', F + 'parse_stmt.cc', F + 'Stmt_Parsers.hh', F + 'Label_Stack.hh', F + 'Parsed_File.hh'],
     [('program grammar', F + 'Prgm_Parsers_impl.hh'),
      ('combinators, labelled do', F + 'Prgm_Parsers_utils.hh, ' + F + 'Label_Stack.hh'),
      ('statement kinds', F + 'parse_stmt.cc'),
      ('statement ranges and hooks', F + 'Prgm_Tree.hh, ' + F + 'Parsed_File.hh')])
prop('P19', 'Lists, ranges and trees keep every held position valid through edits',
     "After any history of insertions, removals, filters, clears, copies, moves, swaps and grafts, the library's lists, ranges and trees have exactly the contents, order and shape of plain ones edited in the same way. "
     'A position, end, range or cursor held by anyone keeps denoting the same elements until they are removed or their list is assigned over, also when the whole container is moved, and a container that was moved from is an empty one. '
     'An operation that runs out of memory says so and leaves the contents as they were (a copy assignment: an intact list); removing and clearing never fail.',
     ['histories', 'schedules', 'fault_sequences'],
     'all histories of operations by several holders of positions on several containers, with a failing allocation at any point',
     'The tests apply a few operations to one container each and neither hold positions across edits nor make an allocation fail.',
     [F + 'Safe_List.hh', F + 'Tree.hh'],
     [('the element behind the last one', F + 'Safe_List.hh: Safe_List'),
      ('ranges', F + 'Safe_List.hh: SL_Range, rebase'),
      ('links between nodes', F + 'Tree.hh: Tree_Node::link, swap, emplace; Tree::graft')])
prop('P21', 'Tokens, statements and text of a line agree after any history of edits',
     'For every line of a file in either source form and every interleaved history of edits that its holders make (inserted text, replaced and removed tokens, rewritten statements or lines, dropped empty statements, new layout, label and indentation, splits, copies), the line has exactly the tokens and statements of a plain list edited in the same way. '
     'Its text, read afresh at any moment, has the same tokens, statements and label and every comment in order, whatever is continued or broken across lines. '
     'An edit touches no other line and no copy of the line.',
     ['inputs', 'histories', 'schedules'],
     'all lines of all programs in both source forms, all interleaved histories of edits',
     'The tests make one or two edits on a line, never mix the operations, and do not read the text afresh.',
     [F + 'Logical_Line.cc', F + 'Logical_Line.hh', F + 'File_Line.cc', F + 'Token_Text.hh'],
     [('edits by text', F + 'Logical_Line.cc: insert_text_before, insert_text_after, replace_stmt_substr, replace_main_text'),
      ('edits by token', F + 'Logical_Line.cc: replace_fragment, remove_fragment'),
      ('layout of tokens on lines', F + 'Logical_Line.cc: text_from_frags, remove_empty_statements'),
      ('splits and copies', F + 'Logical_Line.cc: split_after, Logical_Line(Logical_Line const &), operator='),
      ('text of a line', F + 'File_Line.cc: make_continued, make_uncontinued, make_comment_or_blank')])
