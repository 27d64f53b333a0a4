import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe=None,hook=None):
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
     "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe or [],"hook_needed":hook}})
LS="language_server/src/"; PL="parser_library/src/"
p("C01","Base-protocol framing delivers every message exactly once",
 "Every JSON message the server writes is framed with the exact byte length of its body, so that a conforming reader of the stream recovers the same messages in the same order, and every well-framed message a client sends is received once, in order and unchanged, whatever its length, header order, character content or the way the byte stream is cut into reads. A frame whose body is not JSON, and a header block that announces no readable length and is followed by no body, are skipped and do not disturb the messages after them; end of input is reported once and never invents a message.",
 ["inputs","fault_sequences"],"All sequences of JSON messages (any Unicode content and size), all admissible header spellings, all malformed frames between them, all end-of-input points.",
 "The existing tests feed a handful of fixed header strings; they sample neither message content, sequences, malformed interleavings nor cut points.",
 [LS+"base_protocol_channel.cpp",LS+"base_protocol_channel.h",LS+"dispatcher.cpp",LS+"stream_helper.h"],
 [("header loop and body read",LS+"base_protocol_channel.cpp base_protocol_channel::read/read_message"),("writer under a lock",LS+"base_protocol_channel.cpp base_protocol_channel::write")],
 ["bytes on the output stream","messages handed to the receiver"])
p("C02","Queued requests run once, in order, and only superseded ones are cancelled",
 "Every message queued for a server is processed exactly once, one at a time and in the order it was queued, until the manager is shut down. A queued or running request is marked cancelled only when a later open or edit of the same document was queued behind it (or its session is being ended), and the last request queued is never cancelled by the manager. Ending one session processes every message of that session that is still queued, waits for the one being executed, and leaves other sessions' messages in order; shutting down always terminates.",
 ["schedules","histories"],"All interleavings of producers with the worker, all sequences of requests over files and sessions, all shutdown points.",
 "Existing tests run two or three fixed schedules with a fixed dummy server.",
 [LS+"request_manager.cpp",LS+"request_manager.h",LS+"blocking_queue.h",LS+"json_queue_channel.cpp"],
 [("worker loop, queue mutex and condition variable",LS+"request_manager.cpp request_manager::handle_request_"),("invalidation of superseded requests",LS+"request_manager.cpp request_manager::add_request"),("finish_server_requests / end_worker",LS+"request_manager.cpp")],
 ["sequence of message deliveries to each session and the cancellation flag seen during each"])
p("C03","Every LSP request gets exactly one matching answer and nothing stops the server",
 "For every client conversation, each request with an id for a supported method is answered exactly once, with that id, and either a result or an error, and notifications are never answered. A message that is not valid JSON-RPC, names an unknown method or carries missing or ill-typed parameters is answered at most once and changes nothing else: the server keeps answering the requests that follow. After shutdown and exit the process terminates normally.",
 ["inputs","histories","fault_sequences"],"All sequences of well-formed and malformed LSP messages over the supported methods.",
 "The feature tests call single handlers with well-formed parameters; the whole process is never driven, and no malformed message is sent through it.",
 [LS+"lsp/lsp_server.cpp",LS+"server.cpp",LS+"lsp/feature_text_synchronization.cpp",LS+"lsp/feature_workspace_folders.cpp",LS+"lsp/feature_language_features.cpp",LS+"main.cpp",LS+"request_manager.cpp"],
 [("method table and exception guard",LS+"server.cpp server::call_method, "+LS+"lsp/lsp_server.cpp server::message_received")],
 ["stdin/stdout of the language server process"])
p("C04","Text synchronisation reproduces the client's document",
 "After any sequence of open, full or ranged change, and close notifications for a document, the text the server analyses and serves for that document equals the text obtained by applying the same edits on the client, where positions count UTF-16 code units and lines end with CR LF, LF or CR; a position behind the end of its line or of the document means that end. Editing one document never changes another, and a file that is not open is read from disk.",
 ["inputs","histories"],"All documents over any Unicode characters and line-ending mixtures and all sequences of valid edits.",
 "Existing tests apply a few hand-written edits on ASCII text plus a couple of fixed multi-byte cases.",
 [PL+"workspaces/processor_file_impl.cpp",PL+"workspaces/file_impl.cpp",PL+"workspaces/file_manager_impl.cpp",PL+"workspace_manager.cpp",LS+"lsp/feature_text_synchronization.cpp"],
 [("edit application and line index",PL+"workspaces/file_impl.cpp file_impl::did_change, index_from_location, create_line_indices")],
 ["text returned for the document","positions of diagnostics and tokens computed from it"])
p("C05","What the client sees depends on the current files, not on the history",
 "After any history of opening, editing, closing and watched-file notifications, the diagnostics published last for each file, and the answers to definition, references, hover and completion requests, equal those of a fresh session that opens the same documents with the same current contents. In particular, diagnostics of files that no longer have any are withdrawn, and changes to a macro or copy member reach every open program that uses it.",
 ["histories","configurations"],"All histories of document and file events over workspaces of several programs, macros and copy members.",
 "Existing tests check a few fixed histories; the property compares the end of every history with a fresh start.",
 [PL+"workspaces/workspace.cpp",PL+"workspace_manager.cpp",PL+"workspace_manager_impl.h",PL+"workspaces/file_manager_impl.cpp",PL+"workspaces/processor_file_impl.cpp"],
 [("dependants are re-parsed on change; caches keyed by file version",PL+"workspaces/workspace.cpp"),("diagnostics collected over all files and pushed to observers",PL+"workspace_manager_impl.h notify_diagnostics_consumers")],
 ["diagnostics notifications","query results"])
p("C06","Configuration decides which library a program's members come from",
 "For a program covered by the workspace configuration, the processor group is the one of its exact entry or otherwise of a matching wildcard entry; each macro or copy member not defined in the program is taken from the first library of that group, in listed order, that contains it, ignoring the case of the name and honouring the declared file extensions, and assembler options of the group are in effect. A program without configuration uses no library, and a broken or missing configuration file, unknown group or missing library is reported without affecting anything else.",
 ["configurations","inputs"],"All configurations of groups, libraries (relative, absolute, with or without extensions), program patterns and settings, over all directory contents.",
 "Existing tests use a handful of fixed workspaces.",
 [PL+"workspaces/workspace.cpp",PL+"workspaces/library_local.cpp",PL+"workspaces/wildcard.cpp",PL+"config/pgm_conf.cpp",PL+"config/proc_conf.cpp",PL+"workspaces/processor_group.h",PL+"workspaces/file_manager_impl.cpp"],
 [("program and group lookup",PL+"workspaces/workspace.cpp workspace::load_config, get_proc_grp_by_program"),("library search order",PL+"workspaces/workspace.cpp parse_library/has_library, library_local.cpp find_file")],
 ["diagnostics and symbols that reveal which member was used"])
p("C07","Cancelling an analysis at any point leaves no trace",
 "An analysis interrupted at any point returns without crashing or hanging, and when the same document is then analysed to completion, in the same session, diagnostics and query answers are the same as if the interruption had never happened.",
 ["schedules","inputs"],"All points at which the cancellation flag may be raised during analysis, for all programs.",
 "No existing test raises the flag in the middle of an analysis.",
 [PL+"analyzer.cpp",PL+"processing/processing_manager.cpp",PL+"workspaces/workspace.cpp",PL+"workspaces/processor_file_impl.cpp",PL+"workspace_manager.cpp"],
 [("cancellation flag polled per statement",PL+"processing/processing_manager.cpp start_processing"),("reparse on next change",PL+"workspaces/workspace.cpp")],
 ["results after the interruption"])
p("C08","Any source text is analysed safely and reported within its bounds",
 "For any text, analysis of it and of all members it includes terminates without crash, hang or undefined behaviour, and so does every language feature query at every position. Each diagnostic, definition, reference and highlighted range reported lies within an existing file and has its start not after its end.",
 ["inputs","programs"],"All texts (arbitrary bytes decoded as the server does, mutated and generated HLASM) and all query positions.",
 "The tests run fixed programs; no test checks range validity or arbitrary text.",
 [PL+"analyzer.cpp",PL+"lexing/lexer.cpp",PL+"lexing/input_source.cpp",PL+"parsing/parser_impl.cpp",PL+"processing/processing_manager.cpp",PL+"lsp/lsp_context.cpp",PL+"semantics/source_info_processor.cpp"],
 [("lexer/parser error recovery, copy recursion and nesting limits",PL+"lexing, "+PL+"processing")],
 ["process health under address and undefined-behaviour sanitizers","all reported ranges"])
p("C09","Analysis is a function of its inputs",
 "Analysing the same sources with the same members and options always yields the same diagnostics, symbols, variables, tokens and query answers (the order within lists is open). Earlier analyses in the same process, and whether highlighting is collected, have no influence.",
 ["inputs","histories"],"All programs, any analyses run before in the process, both highlighting modes, several processes.",
 "No test analyses the same program twice or after another one.",
 [PL+"analyzer.cpp",PL+"context/instruction.cpp",PL+"context/id_storage.cpp",PL+"context/hlasm_context.cpp"],
 [("all state in the analysis context",PL+"analyzer.cpp, context/hlasm_context.cpp")],["full result dump of an analysis"])
p("C10","Conditional-assembly expressions compute HLASM values",
 "Assigning any conditional-assembly expression to a SET symbol gives the value the HLASM language defines: 32-bit arithmetic with truncating division and x/0=0, logical and relational operators with their precedence and EBCDIC character comparison, built-in functions, character concatenation, duplication, substring and quote pairing, and conversions between types. An expression with an error yields a diagnostic and never a silently different value.",
 ["inputs"],"All well-typed SETA, SETB and SETC expressions over SET symbols, literals, operators and built-in functions, and all arithmetic overflow and substring boundary cases.",
 "Existing tests evaluate some dozens of fixed expressions.",
 [PL+"expressions/conditional_assembly/ca_expr_policy.cpp",PL+"expressions/conditional_assembly/ca_operator_binary.cpp",PL+"expressions/conditional_assembly/ca_operator_unary.cpp",PL+"expressions/conditional_assembly/terms/ca_function.cpp",PL+"expressions/conditional_assembly/terms/ca_string.cpp",PL+"expressions/conditional_assembly/terms/ca_expr_list.cpp",PL+"ebcdic_encoding.cpp"],
 [("expression tree resolution and evaluation",PL+"expressions/conditional_assembly")],["values of SET symbols after analysis"])
p("C11","Conditional assembly follows its control flow",
 "For every program of SET, AIF, AGO, ANOP, ACTR, MEXIT, MEND and macro calls, the sequence of executed statements, the number of loop iterations before the ACTR limit, and the final values and scopes (local per macro call, global, subscripted, concatenated names) of variable symbols are those of the HLASM language. Statements that are skipped have no effect; an assignment or declaration in error (wrong type, missing or superfluous subscript, a symbol declared twice, a parameter assigned) is reported and changes nothing.",
 ["programs"],"All programs with forward and backward branches, nested and recursive macro calls, inner macro definitions, local and global SET symbols of each type.",
 "Existing tests run fixed small programs.",
 [PL+"processing/instruction_sets/ca_processor.cpp",PL+"processing/instruction_sets/macro_processor.cpp",PL+"context/hlasm_context.cpp",PL+"context/variables/set_symbol.h",PL+"processing/statement_processors/lookahead_processor.cpp",PL+"processing/statement_providers/macro_statement_provider.cpp",PL+"processing/statement_processors/macrodef_processor.cpp",PL+"processing/processing_manager.cpp"],
 [("sequence-symbol jumps, lookahead, branch counter, scope stack",PL+"context/hlasm_context.cpp, "+PL+"processing/processing_manager.cpp")],["SET symbol values, MNOTE output"])
p("C12","Macro parameters receive the operands of the call",
 "In a macro call each positional, keyword, default, omitted and name-field parameter, &SYSLIST at every subscript, nested sublists, and the N', K' and T' attributes of parameters and SET symbols have the values HLASM defines for the written operands, whatever mix of quotes, parentheses, continuation lines and variable symbols the operands use. Every call has its own unique &SYSNDX and nesting values.",
 ["inputs","programs"],"All macro prototypes and all call operand lists including nested sublists and strings.",
 "Existing tests use fixed operand lists.",
 [PL+"context/macro.cpp",PL+"context/macro_param_data.cpp",PL+"context/variables/macro_param.cpp",PL+"context/variables/system_variable.cpp",PL+"processing/instruction_sets/macro_processor.cpp",PL+"expressions/conditional_assembly/terms/ca_symbol_attribute.cpp"],
 [("operand to parameter data conversion",PL+"processing/instruction_sets/macro_processor.cpp get_operand_data, string_to_macrodata"),("subscript access",PL+"context/macro_param_data.cpp")],["values assigned from parameters inside the macro"])
p("C13","Location counters give every label its HLASM address",
 "In every program without layout errors, the offset and section of each label equal the HLASM layout of the statements before it: instruction and data lengths, alignment, ORG with and without operands, control sections, dummy sections and LOCTR segments resumed in any order, and EQU and literal-free location-counter references. Statement order rules are enforced: a layout that HLASM forbids is diagnosed.",
 ["programs"],"All interleavings of CSECT, DSECT, RSECT, COM, LOCTR, ORG, DS, DC, EQU, CNOP and machine instructions.",
 "Existing tests check a few fixed layouts.",
 [PL+"context/ordinary_assembly/location_counter.cpp",PL+"context/ordinary_assembly/section.cpp",PL+"context/ordinary_assembly/ordinary_assembly_context.cpp",PL+"context/ordinary_assembly/address.cpp",PL+"processing/instruction_sets/asm_processor.cpp",PL+"processing/instruction_sets/mach_processor.cpp"],
 [("location counter data with spaces",PL+"context/ordinary_assembly/location_counter.cpp"),("unresolved space resolution",PL+"context/ordinary_assembly/symbol_dependency_tables.cpp")],["values of labels and of label differences"])
p("C14","Data definitions have the lengths, alignments and attributes HLASM defines",
 "For every valid DC or DS operand (type, extension, duplication factor, explicit length in bytes or bits, scale and exponent modifiers, nominal values), the storage reserved, the alignment and the length, type, scale and integer attributes of its label are those HLASM defines, and no error is reported. An operand that violates a documented limit or type rule is reported as an error.",
 ["inputs"],"All data definition types with all combinations of modifiers and values.",
 "Existing tests sample each type with a few fixed operands.",
 [PL+"checking/data_definition/data_def_type_base.cpp",PL+"checking/data_definition/data_def_types_string.cpp",PL+"checking/data_definition/data_def_types_fixed_point.cpp",PL+"checking/data_definition/data_def_types_address.cpp",PL+"checking/data_definition/data_def_types_floating_point.cpp",PL+"checking/data_definition/data_definition_operand.cpp",PL+"processing/instruction_sets/low_language_processor.cpp",PL+"expressions/data_definition.cpp"],
 [("type tables and length computation",PL+"checking/data_definition")],["symbol values and attributes","diagnostics"])
p("C15","Machine instructions are accepted exactly when their operands are valid",
 "For every machine instruction and extended mnemonic, a statement whose operands have the right number, kind and value ranges for its format is accepted without a diagnostic and advances the location counter by the instruction's length; a statement with a missing, extra, ill-formed or out-of-range operand gets an error. The same operand value gives the same verdict however it is spelled (literal, symbol, expression, parameter).",
 ["inputs"],"All instructions of the table, all operand values in and just outside the allowed ranges, all equivalent spellings of an operand.",
 "Existing tests sample a few instructions with fixed operands.",
 [PL+"context/instruction.cpp",PL+"checking/instr_operand.cpp",PL+"checking/instruction_checker.cpp",PL+"semantics/operand_impls.cpp",PL+"processing/instruction_sets/mach_processor.cpp"],
 [("per-format operand checks",PL+"context/instruction.cpp machine_instruction::check"),],["diagnostics of a statement; following label values"])
p("C16","Statement layout and spelling do not change the meaning of a program",
 "Rewriting a program by splitting statements over continuation lines (also in the alternate operand format), adding remarks, comment lines, sequence numbers, changing the case of names and operations outside strings, changing line endings, or spacing between fields, changes no symbol value, variable value or the set of reported problems, apart from the positions. Reported positions point at the corresponding place of the rewritten text.",
 ["inputs","programs"],"All programs and all meaning-preserving rewrites of their layout.",
 "Existing tests cover some fixed continuation cases.",
 [PL+"lexing/lexer.cpp",PL+"lexing/input_source.cpp",PL+"parsing/parser_impl.cpp",PL+"parsing/grammar",PL+"semantics/range_provider.cpp",PL+"context/id_storage.cpp"],
 [("lexer continuation handling, range mapping",PL+"lexing/lexer.cpp, "+PL+"semantics/range_provider.cpp")],["result of analysis before and after rewriting"])
p("C17","A member behaves as if it were written in place",
 "Moving statements of a program into a copy member included by COPY, or a macro definition into a library member found by name, changes no symbol, variable value or reported problem other than the file it is reported in, including members used repeatedly, nested, within macros and within skipped code. A recursive, missing or unparsable member is diagnosed and the rest of the program is analysed as before.",
 ["programs","configurations"],"All programs and all ways of splitting them into copy members and library macros.",
 "Existing tests use a few fixed members.",
 [PL+"processing/instruction_sets/asm_processor.cpp",PL+"processing/statement_processors/copy_processor.cpp",PL+"processing/statement_providers/copy_statement_provider.cpp",PL+"processing/statement_processors/macrodef_processor.cpp",PL+"context/hlasm_context.cpp",PL+"context/copy_member.h",PL+"processing/processing_manager.cpp"],
 [("copy stack and macro-definition copy tracking",PL+"context/hlasm_context.cpp, "+PL+"processing/statement_processors/macrodef_processor.cpp")],["results of the split and the unsplit program"])
p("C18","Ordinary symbols resolve to one value whatever the order of definitions",
 "For every set of symbol definitions, a symbol defined once gets the value its defining expression denotes regardless of the order in which symbols are defined and referenced; an undefined symbol, a cyclic definition and every duplicate definition are each diagnosed, and such errors do not change other symbols. Absolute and relocatable arithmetic follows HLASM rules.",
 ["programs"],"All dependency graphs between EQU and data-definition symbols and all orderings of their statements.",
 "Existing tests use small fixed graphs.",
 [PL+"context/ordinary_assembly/symbol_dependency_tables.cpp",PL+"context/ordinary_assembly/ordinary_assembly_context.cpp",PL+"context/ordinary_assembly/symbol.cpp",PL+"context/ordinary_assembly/address.cpp",PL+"expressions/mach_expression.cpp",PL+"expressions/mach_expr_term.cpp"],
 [("postponed dependency resolution",PL+"context/ordinary_assembly/symbol_dependency_tables.cpp")],["symbol values, diagnostics"])
p("C19","Looking ahead never changes what is found or executed",
 "An attribute reference or branch to something defined later gives the same result as if the definition had been known beforehand, and the statements passed while searching are afterwards processed normally, once, and in order. Redefining operation codes with OPSYN, input consumed by AREAD, and what a search finds inside copy members take effect exactly for the statements HLASM says.",
 ["programs"],"All placements of attribute references, forward branches, OPSYN and AREAD relative to the definitions and records they refer to.",
 "Existing tests check a few fixed placements.",
 [PL+"processing/statement_processors/lookahead_processor.cpp",PL+"processing/processing_manager.cpp",PL+"processing/instruction_sets/asm_processor.cpp",PL+"processing/instruction_sets/ca_processor.cpp",PL+"context/hlasm_context.cpp",PL+"expressions/conditional_assembly/terms/ca_symbol_attribute.cpp"],
 [("lookahead with source rewind",PL+"processing/processing_manager.cpp"),("opcode mnemonic scopes",PL+"context/hlasm_context.cpp")],["values of attributes, executed statements"])
p("C20","Navigation finds exactly the definition and uses of a symbol",
 "For every ordinary, variable, sequence symbol, macro and copy member, go-to-definition from any of its occurrences leads to the place that defines it for that scope, find-references returns exactly its written occurrences in processed statements (of that scope, across macro and copy files), and hover shows its value, type and attributes as computed by the analysis. At positions with no symbol, definition returns the position itself, and references and hover return nothing about other symbols.",
 ["programs","inputs"],"All generated programs with macros, copy members and shadowed local names, and all positions.",
 "Existing tests query a few positions of fixed programs.",
 [PL+"lsp/lsp_context.cpp",PL+"lsp/file_info.cpp",PL+"lsp/macro_info.h",PL+"processing/statement_analyzers/occurence_collector.cpp",PL+"processing/processing_manager.cpp",PL+"workspaces/workspace.cpp"],
 [("occurrences collected per statement, scopes by macro line slices",PL+"lsp, "+PL+"processing/statement_analyzers/occurence_collector.cpp")],["definition, references, hover answers"])
p("C21","Completion offers what is valid and visible at the position",
 "Completion of an operation field offers every instruction once and every macro the program knows (once per definition, with the signature and the comments of that definition); of a variable symbol offers exactly the variable symbols of the enclosing scope with their kinds; of a sequence symbol exactly the sequence symbols of that scope. Nothing from other scopes is offered, each symbol appears once, and in comments, remarks, name and operand fields no instructions are offered.",
 ["programs","inputs"],"All positions and trigger characters in all generated programs.",
 "Existing tests query a few positions of fixed programs.",
 [PL+"lsp/lsp_context.cpp",PL+"lsp/completion_item.cpp",PL+"lsp/file_info.cpp"],
 [("completion trigger and scope selection",PL+"lsp/lsp_context.cpp completion")],["completion lists"])
p("C22","Highlighting is ordered, in the text, and matches what was written",
 "The semantic tokens of any document are in ascending order, lie within the text, and overlap only where a string contains symbols; the encoding sent to the client decodes to the same list. In programs without errors every label, instruction, variable, sequence and ordinary symbol, remark, comment, continuation character and sequence-number field has a token of exactly its place and kind, also in macro definitions, copy members and on continuation lines, and no text of another kind has such a token. Highlighting of a document does not depend on other open documents.",
 ["inputs","programs"],"All texts and all generated statement shapes.",
 "Existing tests compare tokens of about a dozen fixed statements.",
 [PL+"semantics/source_info_processor.cpp",PL+"semantics/highlighting_info.h",PL+"lexing/lexer.cpp",PL+"parsing/parser_impl.cpp",PL+"parsing/grammar/hlasmparser.g4",LS+"lsp/feature_language_features.cpp"],
 [("token splitting over continuations, sorting and delta encoding",PL+"semantics/source_info_processor.cpp, "+LS+"lsp/feature_language_features.cpp convert_tokens_to_num_array")],["semantic token lists and encoded arrays"])
p("C23","The macro tracer shows the true execution",
 "In every tracing session, stepping into, over and continuing stops exactly at the statements that the analysis executes in that order and at every breakpoint reached; at each stop the call stack is the chain of active macro calls and copy members with the right lines, and the listed variables have the values they have at that moment. The session always ends, also when disconnected at any stop, and tracing changes nothing in the editor session.",
 ["programs","histories","schedules"],"All traced programs, breakpoint sets and command sequences, disconnect at any stop.",
 "Existing tests trace a few fixed programs with fixed commands.",
 [PL+"debugging/debugger.cpp",PL+"debugging/attribute_variable.cpp",PL+"debugging/set_symbol_variable.cpp",PL+"debugging/macro_param_variable.cpp",LS+"dap/dap_feature.cpp",LS+"dap/dap_session.cpp",LS+"dap/dap_session_manager.cpp",LS+"message_router.cpp"],
 [("analysis thread blocked at each statement",PL+"debugging/debugger.cpp debugger::impl::statement")],["stop events, stack frames, scopes and variables"])
p("C24","Text encodings are handled without loss or fault",
 "Any byte sequence is turned into valid UTF-8 by replacing only its invalid parts, valid text being left unchanged; positions and lengths in such text are counted in UTF-16 code units consistently by diagnostics, tokens and edits. Conversions between characters and EBCDIC codes are mutually inverse on the characters HLASM knows and order characters as EBCDIC does.",
 ["inputs"],"All byte sequences and all characters.",
 "Existing tests use a few fixed strings.",
 [PL+"workspaces/file_impl.cpp",PL+"ebcdic_encoding.cpp",PL+"lexing/lexer.cpp",PL+"lexing/input_source.cpp"],
 [("UTF-8 sanitiser",PL+"workspaces/file_impl.cpp replace_non_utf8_chars"),("EBCDIC tables",PL+"ebcdic_encoding.cpp")],["text and positions returned"])
p("C25","Typing in continued statements keeps continuation columns intact",
 "In the editor client, deleting, cutting or typing text left of the continuation column of a continued line (selections within the line, in either direction) changes the text as asked and keeps the continuation character and what follows it in their columns, by adding blanks before it, or removing blanks when at least as many as the characters typed precede it; with fewer blanks nothing but the move of the column happens. Adding a continuation puts the character in its column and the text behind it on the new line, or appends a continued blank line when the line is already continued; removing one drops the current line and the mark on the previous. No other characters are lost. A plain-text document is recognised as HLASM exactly when a configured wildcard (programs, always-recognised names, library folders) matches its path or, with auto-detection on, when it starts with MACRO or over 40 percent of its relevant lines hold a common instruction or continue one, whatever documents were asked about before; the configuration last saved decides.",
 ["inputs","histories"],"All lines, cursor positions and edit commands in the editor client.",
 "The client's tests need an editor host and are not run here; they try a few fixed edits.",
 ["clients/vscode-hlasmplugin/src/continuationHandler.ts","clients/vscode-hlasmplugin/src/customEditorCommands.ts","clients/vscode-hlasmplugin/src/hlasmLanguageDetection.ts"],
 [("continuation handler commands","clients/vscode-hlasmplugin/src/continuationHandler.ts")],["document text after each command"])
with open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
print(len(P))
