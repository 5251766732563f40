"""property -> rule, level, technique"""
import importlib

BASE = ['rustc (nightly) name resolution, type checking and MIR construction',
        'driver/src/main.rs (MIR to JSON)',
        'engine/interp.py and engine/models.py: MIR transfer functions and summaries of library functions',
        'engine/terms.py: term normal forms']
ALG = 'abstract interpretation of the typed MIR in a term (value-flow) domain, results compared with a specification term'
LINT = 'whole-program query over the type-checked program'

RULES = {
    'C01': ('srp', 'c01'), 'C02': ('srp', 'c02'), 'C03': ('srp', 'c03'), 'C04': ('srp', 'c04'), 'C05': ('srp', 'c05'),
    'C06': ('srp', 'c06'),
    'C14': ('aucpace', 'c14'),
    'C13': ('aucpace', 'c13'), 'C15': ('aucpace', 'c15'), 'C16': ('aucpace', 'c16'), 'C17': ('aucpace', 'c17'),
    'C18': ('aucpace', 'c18'), 'C19': ('aucpace', 'c19'), 'C20': ('aucpace', 'c20'), 'C21': ('aucpace', 'c21'),
    'C22': ('aucpace', 'c22'), 'C29': ('aucpace', 'c29'), 'C30': ('aucpace', 'c30'),
    'C23': ('cross', 'c23'), 'C26': ('cross', 'c26'),
    'C07': ('spake2', 'c07'), 'C08': ('spake2', 'c08'), 'C09': ('spake2', 'c09'), 'C10': ('spake2', 'c10'),
    'C11': ('fmtrule', 'c11'), 'C12': ('lints', 'c12'), 'C24': ('lints', 'c24'), 'C25': ('panicrule', 'c25'),
    'C27': ('lints', 'c27'), 'C28': ('lints', 'c28'), 'C31': ('serderule', 'c31'),
    'C37': ('aucpace', 'c37'), 'C38': ('lints', 'c38'),
    'C43': ('grouprule', 'c43'), 'C44': ('lints', 'c44'),
    'C39': ('termrule', 'c39'), 'C42': ('serderule', 'c42'),
    'C40': ('valuerule', 'c40'), 'C41': ('valuerule', 'c41'),
    'C35': ('flowrule', 'c35'), 'C36': ('configrule', 'c36'),
}
T_ALG = ALG
# rules that look at feature combinations and profiles themselves, or at none
OWN_PROFILES = ('C06', 'C27', 'C28', 'C36')
META = {
    'C01': dict(technique=ALG + ': client and server composed; keys as ring normal forms modulo N', note='all groups, credentials and private values; library models trusted'),
    'C02': dict(technique=ALG + ': outcome of process_reply on every path against X = 0 mod N; producers of verifier objects enumerated', note='all peer values'),
    'C03': dict(technique=ALG + ': acceptance condition against one whole-value ct_eq', note='all replies of all lengths'),
    'C04': dict(technique=ALG + ': proof terms', note='all peer values'),
    'C05': dict(technique=ALG + ': each published computation against its RFC 5054 term', note='one known finding: compute_u is unpadded'),
    'C06': dict(technique='constant evaluation of the group initialisers plus number-theoretic checks of the constants', note='primality by Miller-Rabin', level='other'),
    'C07': dict(technique=ALG + ': both sides composed, scalar/point normal forms', note='all passwords, identities and scalars, both message orders'),
    'C08': dict(technique=ALG + ': outcome of finish on an arbitrary byte string; panic sites proved unreachable', note='all messages of all lengths, three roles'),
    'C09': dict(technique=ALG + ': key term against the transcript definition', note='all accepted messages'),
    'C14': dict(technique=ALG + ': register and login of both sides composed for all 64 variant combinations', note='all inputs and randomness; paths on which a random element is neutral excepted'),
    'C13': dict(technique=ALG + ': outcome of every step on an arbitrary peer element against "is neutral or leads to it"; producers of checked states enumerated', note='all peer elements'),
    'C15': dict(technique=ALG + ': session identifier terms and the acceptance condition of pre-established ones', note='all nonces and identifiers of all lengths'),
    'C16': dict(technique=ALG + ': acceptance condition against one whole-value ct_eq', note='all authenticators'),
    'C17': dict(technique=ALG + ': generator and key schedule terms; enumeration of domain prefixes', note='all inputs'),
    'C18': dict(technique=ALG + ': lookup-failure paths; data dependencies of decoy fields', note='all usernames; every lookup entry point'),
    'C19': dict(technique=ALG + ': two successive replies compared field by field for registered and unregistered users', note='two known findings (salt length, decoy parameters)'),
    'C20': dict(technique=ALG + ': byte strings reaching the password hasher, condition of the too-long error', note='all usernames, passwords and buffer lengths'),
    'C21': dict(technique=ALG + ': scalar conversion on an arbitrary hasher output', note='all hash lengths'),
    'C22': dict(technique=ALG + ': registration message terms', note='all credentials'),
    'C23': dict(technique=ALG + ': provenance of every nonce, salt and scalar as a complete draw; pairwise distinctness', note='quality of the generator itself is assumed'),
    'C26': dict(technique=ALG + ': reachability of secrets in outbound terms outside one-way operations', note='all runs of all variants'),
    'C29': dict(technique=ALG + ': trace of credential-store calls and dependence of replies on the returned record', note='all stores and usernames'),
    'C30': dict(technique=ALG + ': error value on every failing hasher, salt and parameter conversion', note='all causes'),
    'C11': dict(technique=ALG + ': everything that reaches a formatter from every formatting implementation of the crates, against the secrets of the type', note='all values of all formatted types; the fmt machinery is trusted to print only its arguments'),
    'C12': dict(technique=LINT + ': ownership and visibility typestate (by-value steps, no copies, no outside construction, producer graph)', note='all state types and public items'),
    'C24': dict(technique=LINT + ': effect analysis (statics, interior mutability, environment access) and dependence of one-time initialisers', note='all functions of the three crates'),
    'C25': dict(technique=ALG + ': panic obligations of every exported operation on arbitrary arguments', note='all inputs; library functions without summary are assumed total unless listed as panicking'),
    'C27': dict(technique=LINT + ': unsafe blocks, functions, impls, raw dereferences, foreign items, inline assembly in every feature combination; lint level of the crate root', note='all code of the crates after macro expansion'),
    'C28': dict(technique='type checking of every feature combination; linked crates and exported items of each compared', note='256 + 4 + 1 feature combinations', level='other'),
    'C31': dict(technique=ALG + ': the generated and hand-written serde code played against abstract data formats', note='all values of all message variants, four format models'),
    'C36': dict(technique='comparison of the typed MIR of every feature combination and profile; where code differs, abstract interpretation of both builds in a term (value-flow) domain and comparison of results and effects', note='all inputs; every combination of features; debug assertions on and off (quick: at the two extreme feature sets)'),
    'C35': dict(technique='secret-independence dataflow over the typed MIR: every branch condition, index and byte comparison of the abstract interpretation is a term, searched for secret sources', note='all inputs of both roles and all variants; library calls are modelled, not entered'),
    'C37': dict(technique='abstract interpretation of the typed MIR in a term (value-flow) domain: buffered and allocating operations run on the same symbolic arguments, results and effects compared as terms', note='all credentials, salts, parameters, draws and buffer sizes'),
    'C39': dict(technique=ALG + ': every loop met is unrolled, or has a ranking function (counter, remaining elements), or redraws only while a draw is zero', note='library functions assumed to terminate; exported operations on arbitrary arguments'),
    'C38': dict(technique='type query over the type-checked crate for the ready-made instantiations; abstract interpretation of the typed MIR (term domain) for announced group, name and lengths', note='every feature set offering the aliases; all server replies'),
    'C40': dict(technique=ALG + ': the condition decided on every path to every error result; what every formatting of every error variant prints', note='all arguments, states and library outcomes'),
    'C41': dict(technique=ALG + ': every PartialEq, Clone and Deref implementation on every pair of variants', note='all contents'),
    'C43': dict(technique=ALG + '; the group parameter left open, its operations known by the contract of the Group trait', note='all groups, inputs and messages; three known findings (transcripts fixed at 32-byte elements)'),
    'C44': dict(technique='type query: auto traits of every exported type decided by the trait solver under assumptions on the type parameters only', note='all type parameters; feature sets all, default and minimal'),
    'C42': dict(technique=ALG + ': the calls the Serialize code makes to an abstract data format, compared with the published form', note='all values of all message variants; four feature sets'),
    'C10': dict(technique=ALG + ': outbound messages; role elements recomputed from seeds', note='all inputs'),
}
NOT_APPLICABLE = {
    'C32': 'a probabilistic statement about hash and group collisions; no sound static argument bounds it (its structural part, what is hashed, is C04, C09, C15, C17)',
    'C33': 'a cryptographic reduction (decisional assumptions, random oracles); not a property of code structure',
    'C34': "elapsed time is not visible in MIR: it depends on num-bigint and dalek internals and on code generation; the crates' own control flow is covered by C35 and the constant-time comparison sites by C03, C16 and C35",
}


def level(pid):
    return META[pid].get('level', 'proof')


def get(pid):
    m, f = RULES[pid]
    return getattr(importlib.import_module(m), f), level(pid), BASE


def location(e):
    st = getattr(e, 'where', None)
    return str(st) if st else 'analysis'
