#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the technique table below."""
import json, sys
T = {
 'C01': 'round-trip property test: generated grammars laid out and read back, against the written model and an independent reader',
 'C02': 'differential fuzzing (structured edits and token soup) against an independent reader of the language',
 'C03': 'property test: numbering of generated grammars against the written model',
 'C04': 'differential property test: random regexes and strings against a structural position-set matcher',
 'C05': 'differential property test: random regexes and strings against a structural position-set matcher',
 'C06': 'invariant property test over random range sets and random regex automata',
 'C07': 'differential property test against a reference maximal-munch lexer',
 'C08': 'reconstruction invariant over generated grammars and inputs; refusal on left-over text',
 'C09': 'property test against a reference lexer and the symbol table',
 'C10': 'differential property test against a fixpoint FIRST computation',
 'C11': 'differential property test against a bit-set canonical LR(1) construction',
 'C12': 'metamorphic/differential property test of merging against a merge of the same sets',
 'C13': 'differential property test: parallel walk (isomorphism) of code tables and reference LALR(1) tables',
 'C14': 'differential property test against the conflicts of a reference LALR(1) automaton',
 'C15': 'differential property test against a reference lexer and an Earley recogniser',
 'C16': 'property test: replay of generated derivation trees through the tables; Earley viable prefixes',
 'C17': 'differential property test: the generated lexer module read back as data and run against the lexer, with texts covering every edge',
 'C18': 'round-trip property test: the generated parser module read back as data and compared entry by entry with grammar and tables',
 'C19': 'fuzzing of grammar texts, types and names with the TypeScript compiler as validity oracle, and read-back of every symbol text',
 'C20': 'differential property test: Lex<input> evaluated by the TypeScript compiler against the lexer and a reference lexer',
 'C21': 'differential property test: Parse<Lex<input>> evaluated by the TypeScript compiler against reference LALR(1) tables and a mapping interpreter',
 'C22': 'differential property test (mutated sentences): Parse<Lex<input>> evaluated by the TypeScript compiler against a reference recogniser',
 'C23': 'metamorphic property test: repeated generation in one process, after other grammars, on another thread and in fresh processes',
 'C24': 'differential property test of the generated tables and of type-level operations against integer and list operations',
 'C25': 'exhaustive bijection check of both character tables plus generated look-ups evaluated by the TypeScript compiler',
 'C26': 'metamorphic property test: rewritings of the grammar text against acceptance and parse decisions',
 'C27': 'differential property test: Parse<Lex<input>> evaluated by the TypeScript compiler against a reference reduction sequence with a reference check of values against declared types',
 'C28': 'fault-injection property test: generated grammars made ill-formed in one place must be refused',
}
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
only = sys.argv[1:] or [i for i in ids if i in T]
m = {
 'version': 1,
 'setup_cmd': './run.sh build',
 'checks': [
  {'property': i,
   'quick_cmd': f'./run.sh {i}',
   'thorough_cmd': f'VERIF_TIER=thorough ./run.sh {i}',
   'technique': T[i],
   'level': 'exploration',
   'level_note': 'generated-input search with shrinking against an explicit oracle; shows absence of violations only on the cases generated (see evidence)'}
  for i in only],
 'not_applicable': [{'property': i, 'reason': 'check under construction'} for i in ids if i not in only],
}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
