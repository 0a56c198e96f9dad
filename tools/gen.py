#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (only the properties whose check exists are claimed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

S = 'ieml/dictionary/script/script.py'
ST = 'ieml/dictionary/script/tools.py'
SP = 'ieml/dictionary/script/parser/parser.py'
SL = 'ieml/dictionary/script/parser/lexer.py'
PM = 'ieml/usl/polymorpheme.py'
LX = 'ieml/usl/lexeme.py'
WD = 'ieml/usl/word.py'
SF = 'ieml/usl/syntagmatic_function.py'
UP = 'ieml/usl/parser/parser.py'
UL = 'ieml/usl/parser/lexer.py'
PA = 'ieml/usl/decoration/path.py'
PP = 'ieml/usl/decoration/parser/parser.py'
IN = 'ieml/usl/decoration/instance.py'
DI = 'ieml/dictionary/dictionary.py'
TA = 'ieml/dictionary/table/table.py'
TS = 'ieml/dictionary/table/table_structure.py'
RE = 'ieml/dictionary/relation/relations.py'
DB = 'ieml/ieml_database/ieml_database.py'
DE = 'ieml/ieml_database/descriptors.py'
GI = 'ieml/ieml_database/git_interface.py'
TR = 'ieml/ieml_database/transactions/DBTransaction.py'
CO = 'ieml/commons.py'

# id: title, statement, over, quantifier text, why tests can't, files, [(mechanism, where)], technique, level, note
P = {}


def prop(id, title, statement, over, text, why, mech, observe, technique, level='exploration', note=None):
    assert len(title) <= 80, title
    P[id] = dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                 anchors={'files': sorted({w.split(':')[0] for _, w in mech}), 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': observe, 'hook_needed': None}, _t=(technique, level, note))


prop('C01', 'Each script has one canonical text, whatever its spelling or construction',
     'Reading any spelling of a script (other order of the addends, nested or repeated addends, explicit empty roles, abbreviations of primitives and of remarkable '
     'products written out or not, spaces) and building it with the script constructors all give equal objects with the same text and hash; the text read again gives the '
     'same script. Two scripts that are different expressions have different texts and are not equal. A script equals its own text. A role that is not given to a constructor is empty; children of different layers, too many children, an empty sum or an unknown letter are refused with InvalidScript.',
     ['inputs'], 'every script of layers 0 to 6, every spelling and construction order, every hash seed',
     'the tests read about fifteen fixed scripts; the spellings of a script are unbounded and the addends are collected in a set, so the order depends on the hash seed',
     [('canonical order and text of the children', S), ('reading', SP), ('tokens', SL)], ['str(script)', '==', 'hash'],
     'differential monitor against an independent script model, many hash seeds')
prop('C02', 'Singular sequences, cardinal and containment agree with what a script denotes',
     'The singular sequences of a script are exactly the scripts without alternatives obtained by choosing one addend in each sum of the script, each once, in increasing '
     'order and of the same layer; the cardinal and the length are their number, and is_singular says whether it is one. A script is contained in another exactly when it has the same layer and '
     'its singular sequences are all singular sequences of the other.',
     ['inputs'], 'every script whose sums have disjoint addends, of every layer; every pair for the containment',
     'the tests count the sequences of a few scripts; expansion, order and duplicates depend on the shape of the script at every depth',
     [('expansion of sums', S), ('expansion of products', S), ('containment', S)], ['singular_sequences', 'cardinal', 'in'],
     'differential monitor against the denotation computed by an independent model')
prop('C03', 'The order of scripts is a strict total order',
     'For any two scripts exactly one of a < b, a == b, b < a is true, and the order is transitive, so sorting gives one result whatever the initial order. The order is by layer first, '
     'then, in a layer, the empty script comes first, then fewer singular sequences come first.',
     ['inputs'], 'every pair and triple of scripts, close or not, of every layer, and every permutation of a list',
     'the tests compare a handful of pairs; totality and transitivity are statements about all the triples',
     [('comparison', S)], ['<', 'sorted'], 'online order monitor on pairs, triples and permutations')
prop('C04', 'Factorizing preserves the meaning of a script and gives one answer',
     'Factorizing a script, or a list of scripts, gives a script that has exactly the same singular sequences (promoted to the highest layer of the list when they differ, or refused with InvalidScript when promotion is not wanted). The answer depends only on the '
     'set of singular sequences: not on the order of a list, on how the script was written, on the process or on its hash seed; factorizing the answer again gives the same script. No two terms of a sum of the answer could be written as one multiplication.',
     ['inputs', 'configurations'], 'every set of singular sequences of one or several layers, every order, every hash seed',
     'the tests factorize a few scripts in one process',
     [('search of the factors', ST), ('promotion', ST)], ['factorize'], 'differential monitor on singular sequences, and comparison of processes with different hash seeds')
prop('C05', 'The limit of 360 singular sequences is exact everywhere',
     'No script with more than 360 singular sequences can be obtained by reading, adding, multiplying or building: it is refused with TooManySingularSequences or CannotParse before it is expanded; every script with at most 360 '
     'can be obtained by the same means and expanded entirely.',
     ['inputs'], 'every way to make a script, with cardinals on both sides of the limit, including products and sums nested at any depth',
     'no test goes near the limit',
     [('limit in sums', S), ('limit in products', S), ('limit while reading', SP)], ['TooManySingularSequences', 'CannotParse'], 'boundary monitor around the limit')
prop('C06', 'The cells of the tables of a paradigm are its singular sequences, each once',
     'The cells of the tables of a script are exactly its singular sequences, each at one place, and each header of a row, column or tab contains exactly the cells it heads; '
     'the scripts of the tables together have the singular sequences of the script. A script whose table would have too many headers is refused with ValueError.',
     ['inputs'], 'every paradigm of every layer and dimension',
     'the tests look at the shape of a few tables',
     [('cells and headers', S)], ['cells', 'headers', 'tables_script'], 'conservation monitor on the cells and headers')
prop('C07', 'Any text is read or refused with CannotParse, and readers stay usable',
     'Whatever the text given to a reader of scripts, usls or paths, it returns an object whose text can be read again, or raises CannotParse; it never raises anything else and never hangs. '
     'After a refused text every other text is read as if the refused one had not been given. A reader with a dictionary also refuses the texts with a morpheme that is not in it, and reads the others alike.',
     ['inputs', 'histories'], 'every string, from valid texts damaged by one or several edits to noise, and every sequence of texts',
     'the tests read valid texts and three invalid ones',
     [('readers', SP), ('readers', UP), ('readers', PP), ('building of words', SF)], ['IEMLParser.parse', 'ScriptParser.parse', 'PathParser.parse'],
     'fuzzing with an exception and state monitor')
prop('C08', 'Reading is safe with threads, with several processes and after a crash',
     'Texts read at the same time by several threads, with the same or different readers and options (factorized or not), give what they give one after the other. Processes that start at the same time, or after one was '
     'killed while it wrote the parser tables, or with unreadable tables in the cache folder, all read correctly.',
     ['schedules', 'crash_points', 'fault_sequences'], 'every interleaving of readers, every damage of the cached tables, every instant where the process that writes them is killed',
     'the tests read in one thread with the tables already written',
     [('locks of the readers', SP), ('locks of the readers', UP), ('locks of the readers', PP), ('tables', CO)], ['parse'],
     'thread stress with injected preemption; fault injection on the cached tables', 'fault_enumeration')
prop('C09', 'Asking, combining, copying or pickling scripts and usls never changes them',
     'What a script or a usl answers (text, singular sequences, tables, paths, morphemes, order, ...) does not depend on what was asked before, in which order or how many times, nor on the '
     'operations it took part in as an operand, and the lists given to the constructors are left as they are. Its copies and its pickles, also read in another process with another hash seed and inside sets and '
     'dictionaries, are equal to it and answer the same.',
     ['histories', 'inputs'], 'every order of questions and operations, on every script and usl, before and after the lazy answers are computed',
     'the tests ask each object one thing', [('lazy answers', S), ('lazy answers', 'ieml/usl/usl.py'), ('pickling', S), ('pickling', 'ieml/usl/usl.py')],
     ['every public answer', 'pickle', 'copy'], 'history monitor: answers of a used object against those of fresh ones')
prop('C10', 'Each usl has one canonical text, whatever its spelling or construction',
     'Reading any spelling of a polymorpheme, lexeme or word (order of morphemes, groups and roles, spaces, spellings of the morphemes, empty morphemes) and building it with the constructors give equal '
     'usls with the same text (up to spaces) and hash, and the text read again gives the same usl. Usls with a different content, multiplicity, role or focus (a lexeme, or a junction, whose lexemes are then all marked) have different texts and are not equal.',
     ['inputs'], 'every polymorpheme, lexeme and word, with junctions and nested qualities, every spelling and construction order',
     'the tests read a few usls',
     [('text of polymorphemes', PM), ('text of lexemes', LX), ('text of words', SF), ('reading', UP), ('tokens', UL)], ['usl', 'str', '==', 'hash'],
     'differential monitor against an independent usl model')
prop('C11', 'The singular sequences of a polymorpheme respect its groups and multiplicities',
     'The singular sequences of a polymorpheme are polymorphemes without groups, each once, that have every constant morpheme, only morphemes of the polymorpheme, and from each group at most as many morphemes as its '
     'multiplicity, the numbers taken in the groups differing by at most one, with at most five morphemes; every such choice is one of them. A polymorpheme without groups is its own singular sequence, and the cardinal is their number.',
     ['inputs'], 'every polymorpheme with up to three groups', 'one test enumerates one polymorpheme',
     [('combinations', PM)], ['singular_sequences', 'cardinal'], 'differential monitor against an enumeration by an independent model')
prop('C12', 'The singular sequences of lexemes and words are the choices at each place',
     'The singular sequences of a lexeme or word are exactly the usls obtained by choosing a singular sequence of each of its polymorphemes, each once, with the same roles and focus; cardinal is '
     'their number. A usl is contained in another exactly when all its singular sequences are singular sequences of the other.',
     ['inputs'], 'every lexeme and word, with junctions and plural places in several roles', 'no test looks at them',
     [('product of the places', SF), ('product of the places', LX), ('containment', 'ieml/usl/usl.py')], ['singular_sequences', 'cardinal', 'in'],
     'differential monitor against an independent model')
prop('C13', 'Words are assembled from their roles without loss, malformed usls are refused',
     'The list of the (role, lexeme) pairs of a word has each role once with its lexeme, and assembling it in any order gives the same word. A usl with a repeated morpheme, a paradigm as a morpheme, a '
     'multiplicity out of bounds, an unknown, misplaced or repeated role, or a focus that is not one of its roles is refused when it is built, read or validated, and a well formed one is accepted.',
     ['inputs'], 'every word and every order of its roles; every well formed usl and every usl with one such defect', 'the tests have three words',
     [('from_list, as_list', SF), ('check', WD), ('check_polymorpheme', PM), ('check_address_script', 'ieml/usl/constants.py')], ['check', 'from_list', 'as_list'],
     'round trip monitor, and injected defects that must be refused')
prop('C14', 'Paths designate the parts of a usl, can be read back, and rebuild the usl',
     'The paths that a usl lists are those of its structure, each once; each designates the part it is listed with, is written and read back as an equal path (also with the names of its roles), and a path to a place that the usl does not have '
     'is refused with DeferenceError. The list of the (path, morpheme) pairs of a usl, in any order, gives the usl back, and a list with anything else than paths and usls or scripts is refused with ValueError. The prefixes of a path are itself and the paths of the parts that its part is in, and no other; '
     'splitting off the end of a path, or removing the prefix of a role or lexeme, leaves the rest of it, and concat gives the path back.',
     ['inputs'], 'every usl, every path and every order of the list', 'the tests follow a dozen paths; the test of the round trip needs the network',
     [('paths', PA), ('reading of paths', PP), ('listing', PM), ('listing', LX), ('listing', SF)], ['iter_structure_path', 'deference', 'path', 'usl'],
     'differential monitor against the structure of an independent model, round trips')
prop('C15', 'The table of a usl along two of its parts has one cell per pair of choices',
     'The table of a usl along two groups of its contents, or two whole parts (content or flexion), has one row per choice in the first and one column per choice in the second; each cell is the usl where both choices are made and the other '
     'groups are left, each row or column header is the usl where only its own choice is made, and the headers are sorted. When only the group of the columns is given, the rows are the choices in everything else.',
     ['inputs'], 'every polymorpheme, lexeme and word with groups and every pair of them', 'the tests build three fixed tables',
     [('cells and headers', 'ieml/usl/table.py'), ('paths', PA)], ['UslTable2D'], 'differential monitor against an independent model')
prop('C16', 'Decorations keep their place and text and do not leak',
     'The text of a decorated usl can be read back and gives the same usl with the same decorations, whatever characters their values have; each decoration stays at its own path and no other usl, path or morpheme, read before or '
     'after, gets it. A decoration at a path that the usl does not have is refused, with CannotParse when it is read and DeferenceError when it is built, and the singular sequences of a decorated usl are those of the usl with the decorations whose path they have.',
     ['inputs', 'histories'], 'every usl, every set of its paths, every text value', 'the tests decorate one word with plain values',
     [('decorations', IN), ('reading', UP), ('tokens', UL)], ['InstancedUSL', 'usl'], 'round trip and isolation monitor')
prop('C17', 'The listing of a database is complete, described right and sorted',
     'The listing of a database (get_list) has each stored usl that its dictionary can read, once, and no other, with its text, its type (that of the usl inside, for a decorated one), its grammatical class, whether it is a paradigm, a singular sequence or a root '
     'paradigm, and all its descriptors by language. It is sorted by index: the scripts first, in the order of the dictionary, then the polymorphemes, the lexemes and the words; polymorphemes with different morphemes and no groups have different indexes. The indexes are '
     'numbers written in a base with a fixed width, that keep the order of the numbers and give them back.',
     ['inputs', 'histories'], 'every database: any dictionary, any usls that it can read or not, decorated or not, any descriptors; every pair of indexes', 'the test of the listing needs the network',
     [('listing', DB), ('index', 'ieml/usl/__init__.py')], ['IEMLDatabase.get_list', 'get_index', 'int2base'], 'differential monitor against a model of the database; order monitor on the indexes')
prop('C18', 'A dictionary has exactly the scripts of its roots, in one order',
     'A dictionary has as scripts the singular sequences of its root paradigms and the listed paradigms that are inside of a root and have a place in its tables, sorted and each once, with an index that is the position; every script '
     'knows its root, ignored paradigms are left out, and overlapping roots are refused with ValueError. It does not depend on the order of the lists it is built from, nor on the hash seed, and its pickle answers the same.',
     ['inputs', 'configurations'], 'every set of roots and paradigms, every order, every hash seed', 'the tests of the dictionary need the network',
     [('content', DI), ('tables of the roots', TS)], ['Dictionary'], 'differential monitor against an independent dictionary model')
prop('C19', 'Each script of a dictionary has its place in the tables of its root',
     'The root has rank 0 and its singular sequences, its cells, have rank 6. Every other paradigm has for parent the smallest paradigm of the root that contains it in a regular way: its rank is one more than that of the parent (at least 1) for a '
     'block of a table or for whole rows or columns together, two more for one row, one column or consecutive cells of a column, and the same for a part of a set of tables. The coordinates of a script in the tables that contain it, the headers and the dimension '
     'are those of the cells of the script, and the children are the inverse of the parent.',
     ['inputs'], 'every root paradigm and every set of paradigms listed in it', 'the tests of the tables need the network',
     [('structure of the tables', TS), ('tables', TA)], ['TableStructure', 'Table'], 'differential monitor against an independent model of the tables')
prop('C20', 'The relations of a dictionary obey their definitions',
     'A script contains those of its root whose singular sequences it has; two scripts share a table of a rank when a paradigm of this rank contains both; the fathers of a script are, for each of its roles, the scripts of the dictionary that are the terms of that role, or what is '
     'nearest below when they are not in the dictionary, and children are the inverse; two different products of the same root and size are opposed when their first two roles are exchanged, associated when they are the same, crossed when they are opposed one by one, twin when both have two equal first roles. '
     'A root can inhibit relations for its own scripts and for them only. Every relation links exactly the pairs that these definitions say; contains and contained, father and child are inverse, siblings are symmetric and never link a script to itself.',
     ['inputs'], 'every dictionary, every pair of its scripts and every set of inhibitions', 'the tests of the relations need the network',
     [('relations', RE)], ['RelationsGraph'], 'differential monitor on every pair of scripts against a reference definition')
prop('C21', 'The store gives back exactly what was written, and removes exactly what is asked',
     'After any sequence of additions and removals of descriptors and structure values, reading one usl, all of them or the list of the usls gives exactly the values added and not removed, with their characters, in the order in which they '
     'were added, whatever the spelling of the usl; removing what is not there changes nothing. Other usls are never touched, and another reader of the same folder sees the same. What is not a usl, a language, a descriptor or a structure key is refused. '
     'A database that already exists (one file per usl, named after its text and cut with a hash after 100 characters, one quoted line per value) is read and edited in the same way; a usl that it stores under a text that is not the canonical one is listed with that text, and removed by it (normalize=False) without touching the canonical one.',
     ['histories', 'inputs'], 'every sequence of operations on every kind of usl (very long texts, decorated usls), with values that have quotes, separators, line ends and any unicode',
     'one test adds and removes one descriptor',
     [('files', DB), ('values', DE)], ['IEMLDatabase'], 'history monitor against a model of the store')
prop('C22', 'A transaction of the database is committed whole or leaves no trace',
     'When the edits of a transaction are made without error there is exactly one new commit on the current branch whose content is the edited files, with the given author and message, and the working folder is clean; when an exception interrupts it at any '
     'point, in the edits or while the commit is recorded, the branches, the index and the files are those of before and the exception reaches the caller. When the process dies in it, opening the folder again gives the state of before, or the whole commit. A transaction that changes nothing leaves '
     'everything as it is, and none starts on a folder that is not clean: it is refused with ValueError and touches nothing. The operations of DBTransactions keep this at each of their writes.',
     ['crash_points', 'fault_sequences', 'histories'], 'every sequence of edits (new, changed, removed files), every point of them where an exception is raised or the process dies, and every call that records the commit', 'one test commits one file',
     [('transaction', GI), ('operations', TR)], ['GitInterface.commit', 'GitInterface.reset'], 'fault injection at each point of a transaction, with a monitor of the repository', 'fault_enumeration')
prop('C23', 'Each database operation changes what it says and nothing else',
     'Creating a root paradigm, adding, updating or deleting a paradigm, replacing descriptors or inhibitions and migrating all the usls leave the database with exactly the content that the operation describes, all the values of the other '
     'usls as they were, in one commit of the given author (the tables of a new root paradigm are added by one commit each), and no commit when there is nothing to change. An invalid request (a singular sequence or a script not factorized as a paradigm, a paradigm that exists already or is not in exactly one root, a root that overlaps another one, an unknown relation, '
     'a value that is not a text) is refused and changes nothing. The difference reported between two commits is exactly the files whose content differs, with the lines added and deleted and the usl they are about.',
     ['histories', 'inputs'], 'every sequence of operations, valid or not, on a database with any content', 'no test runs these operations',
     [('operations', TR), ('difference', GI)], ['DBTransactions', 'GitInterface.diff'], 'history monitor against an executable model of the operations')
prop('C24', 'Pulling keeps both sides and ends in a clean state',
     'After a pull, each usl that only one side changed since the common ancestor has the content of that side, and a usl that both changed has either both changes merged value by value or the remote version, '
     'the local one being given back to the caller as a conflict with all its values. No merge is left pending, the folder is clean, the new head has the local and the remote head as parents (or is one of them when nothing is to merge), '
     'pulling again, or when the remote is out of reach, changes nothing, and clones that synchronise end with the same content.',
     ['histories'], 'every pair of histories of edits on the two sides', 'one test has one conflict',
     [('merge', GI), ('union of descriptors', DB)], ['GitInterface.pull'], 'history monitor on pairs of diverging histories, three-way merge model')
prop('C25', 'Cached answers of the database are never stale',
     'The dictionary and the listing read with a cache are those that would be read without it, after any edit by this process, by another one or by git (also one that keeps the size and dates of the files), whatever the name of the folder, also when the files change during an earlier reading, when the cache files are damaged, missing or left by another content, and '
     'when several processes read with the same cache.',
     ['histories', 'fault_sequences', 'schedules'], 'every sequence of edits and reads, every damage of the cache files, every edit during a read', 'no test reads twice',
     [('cache', CO), ('cached answers', DB)], ['get_dictionary', 'get_list'], 'differential monitor cached against uncached, with injected damage and edits', 'fault_enumeration')
prop('C26', 'The order of usls is a strict total order',
     'For any two usls among scripts, polymorphemes, lexemes and words exactly one of a < b, a == b, b < a is true and the order is transitive, so sorting gives one result whatever the initial order; scripts come before '
     'polymorphemes, then lexemes, then words.',
     ['inputs'], 'every pair and triple of usls, of the same kind or not, and every permutation of a list', 'no test compares usls',
     [('comparison', 'ieml/usl/usl.py'), ('comparison', PM), ('comparison', LX), ('comparison', WD), ('comparison', SF)], ['<', 'sorted'], 'online order monitor on pairs, triples and permutations')
prop('C27', 'Every recorded version of a database can be opened, visited and compared',
     'A folder that is cloned, opened again, checked out or reset on a branch or on a commit has exactly the files, descriptors and structures that were recorded there, on the branch that was asked (also a branch that is only in the origin), with a clean status: uncommitted edits, also '
     'staged ones and new files, are gone, the other branches stay where they were, and get_version and current_commit name that version. An unknown branch or commit is refused and moves no branch. The difference of any two versions is exactly the files whose content differs, with the '
     'lines added and deleted, the usl they are about, and whether the file is new or removed. A push puts the current branch, and only it, on the remote as it is here, and is refused when commits of the remote would be lost, unless it is forced. Two origins never share their default folder.',
     ['histories'], 'every history of commits on several branches, of visits, of uncommitted edits and of pushes', 'no test changes of branch or goes back to a commit',
     [('checkout, reset, push, difference', GI), ('content', DB)], ['GitInterface', 'GitInterface.checkout', 'GitInterface.reset', 'GitInterface.diff', 'GitInterface.push'], 'history monitor against the versions recorded when they were made')
prop('C28', 'The parts of a usl that vary, and the choices of them, are listed exactly',
     'The dimension of a usl (enumerate_partitions) is the number of its smallest parts that have several singular sequences: groups of a content and whole flexions, the usl itself being no part. The choices of parts listed with it are exactly '
     'the sets of parts (roles, contents, flexions, groups) with several singular sequences none of which is inside another, each once, the empty one included. Each path listed designates in the usl such a part and can be read back; the '
     'product of the numbers of singular sequences of the widest parts of a lexeme or of a word is that of the usl. Neither the decorations nor the listing change the usl.',
     ['inputs'], 'every polymorpheme, lexeme and word whose constants leave room for their groups (at most four morphemes where there are groups)', 'the test asks for the dimension of one word, and fails',
     [('choices', 'ieml/usl/table.py'), ('paths', PA), ('parts', WD), ('parts', LX), ('parts', PM)], ['enumerate_partitions'], 'differential monitor against an independent model')

NOTE = ('runs the real code of /repo under generated workloads with 8 worker processes and as many hash seeds, while monitors compare what is observed with an independent '
        'reference; holds for what was explored, trusts the reference models in /verif/lib')


def main():
    have = [i for i in sorted(P) if os.path.exists(os.path.join(HERE, 'checks', 'c%s.py' % i[1:]))]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf8') as fp:
        for i in have:
            fp.write(json.dumps({k: v for k, v in P[i].items() if k != '_t'}, ensure_ascii=False) + '\n')
    checks = []
    for i in have:
        t, level, note = P[i]['_t']
        checks.append({'property': i, 'quick_cmd': 'python3 run.py %s' % i, 'thorough_cmd': 'python3 run.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': 'runtime monitoring: ' + t, 'level': level, 'level_note': note or NOTE})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf8') as fp:
        json.dump({'version': 1, 'setup_cmd': 'python3 run.py --selftest', 'checks': checks, 'not_applicable': [],
                   'notes': 'No hooks: the monitors wrap the public API from outside. fix: commits in /repo repair the defects listed in known-findings.txt.'}, fp, indent=1, ensure_ascii=False)
        fp.write('\n')
    print('missing checks:', [i for i in sorted(P) if i not in have])


if __name__ == '__main__':
    main()
