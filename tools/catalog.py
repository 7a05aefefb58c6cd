"""Single source for properties.jsonl and MANIFEST.json.

Run:  python3 tools/catalog.py      (rewrites both files in /verif)
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), note=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None),
        note=note))


FS = 'openid/store/filestore.py'
MS = 'openid/store/memstore.py'
SQ = 'openid/store/sqlstore.py'
NO = 'openid/store/nonce.py'
AS = 'openid/association.py'
SV = 'openid/server/server.py'
TR = 'openid/server/trustroot.py'
CO = 'openid/consumer/consumer.py'
DI = 'openid/consumer/discover.py'
FE = 'openid/fetchers.py'
ME = 'openid/message.py'
MG = 'openid/yadis/manager.py'

# ---------------------------------------------------------------- protocol
prop('C01', 'A relying party reports success only for genuine assertions',
     'Whatever a hostile browser, a hostile provider or a lossy network do to messages in transit (the direct channel to a provider and the '
     'fetched identity documents may be lost or fail but are not forged), a relying party '
     'completes a login as successful for a claimed identifier only if a provider that the discovered information '
     'for exactly that identifier names really approved that login (same identity, this return address, all the '
     'mandatory fields covered by its signature). Any alteration, substitution, re-signing with another key, '
     'omission of signed fields or redirection to another return address ends in failure, cancel or setup-needed '
     'or an error, never in success.',
     ['fault_sequences', 'histories', 'inputs'],
     'all message histories between browsers, relying parties, honest and hostile providers, with tampering, '
     'replay, loss and reordering at every hop',
     'tests try a handful of hand-made responses against stubbed verification; no test runs both ends with an '
     'adversary choosing what to alter, drop, replay or forge',
     [CO, AS, ME, SV, DI],
     [('signature, return_to, field and discovery verification of id_res', CO + ':GenericConsumer._doIdRes'),
      ('verification of discovered information', CO + ':GenericConsumer._verifyDiscoveryResults'),
      ('MAC over the signed field list', AS + ':Association.checkMessageSignature')],
     observe=['Response returned by Consumer.complete'])

prop('C02', 'A positive assertion is accepted at most once',
     'One positive assertion makes at most one login succeed at a relying party that has a store, no matter how often, '
     'how concurrently, or through which of the workers sharing its store the response is delivered, including '
     'after worker restarts and store clean-ups. An assertion whose timestamp lies outside the permitted '
     'clock skew never succeeds.',
     ['schedules', 'histories', 'crash_points', 'fault_sequences'],
     'all duplicate deliveries, interleavings of workers, restarts, clean-ups and clock movements',
     'tests use a nonce twice in sequence in one process; they never run two workers, clean up between uses or '
     'move the clock',
     [CO, FS, MS, SQ, NO],
     [('nonce check in id_res processing', CO + ':GenericConsumer._idResCheckNonce'),
      ('atomic nonce creation', FS + ':FileOpenIDStore.useNonce'),
      ('unique key on nonces', SQ + ':SQLStore.txn_useNonce')],
     observe=['Response returned by Consumer.complete in every worker'])

prop('C03', 'Every store accepts a nonce exactly once, and only in its time window',
     'For each bundled store, a (server, timestamp, salt) nonce is accepted by at most one of all the '
     'attempts made by all processes and threads sharing it, and the first attempt whose timestamp is within the '
     'allowed skew of the current time is accepted; nonces that differ in any of the three components are '
     'independent. Timestamps outside the skew are refused, and clean-up, restart or a crash never makes '
     'an accepted nonce acceptable again while it is still inside the window.',
     ['schedules', 'histories', 'crash_points', 'inputs'],
     'all interleavings of useNonce/clean-up calls by several processes or threads, clock movements, crashes, restarts',
     'the store tests are sequential, with one client and no clock control over clean-up',
     [FS, MS, SQ, NO],
     [('exclusive create', FS + ':FileOpenIDStore.useNonce'), ('dictionary insert', MS + ':MemoryStore.useNonce'),
      ('unique constraint in a transaction', SQ + ':SQLStore.txn_useNonce'), ('window', NO + ':SKEW')],
     observe=['return values of useNonce and cleanupNonces'])

prop('C04', 'Association stores behave like a map with expiry',
     'For each bundled store and any history of store, fetch, remove and clean-up calls with time passing and '
     'restarts in between, fetching by server and handle returns exactly the association last stored under that '
     'pair unless it was removed or has expired, and fetching by server alone returns the most recently issued '
     'unexpired one. Removal reports whether something was removed, clean-up discards only '
     'and all expired entries and reports how many, and entries of different servers or handles never affect each other.',
     ['histories', 'inputs', 'configurations'],
     'all operation histories over several servers and handles with simulated time, for every bundled store',
     'testStore walks one fixed script with real time; equal issue times, expiry while stored, restarts, clean-up '
     'interplay and odd characters in names are not reached',
     [FS, MS, SQ, AS],
     [('file per association', FS + ':FileOpenIDStore.getAssociationFilename'),
      ('row per association', SQ + ':SQLStore.txn_getAssociation'),
      ('serialisation', AS + ':Association.serialize')],
     observe=['return values of the store interface'])

prop('C05', 'Concurrent users of one store never see torn or foreign associations',
     'While several processes store, replace, fetch, remove and clean up associations in one shared file or SQL '
     'store, or several threads of one process in one memory store, every fetch returns nothing or a complete association that was stored under exactly the requested '
     'server and handle; an association that is present, unexpired and not being removed throughout a fetch is found. '
     'No operation fails merely because another process or thread works on the same store.',
     ['schedules', 'histories'],
     'all interleavings, at system-call and SQL-statement (for threads: source line) granularity, of several clients of one store',
     'no test runs two clients against one store',
     [FS, SQ, MS],
     [('write to temporary file, then rename', FS + ':FileOpenIDStore.storeAssociation'),
      ('tolerance of vanishing files', FS + ':_removeIfPresent'),
      ('transactions', SQ + ':SQLStore._callInTransaction')],
     observe=['return values and exceptions of the store interface'])

prop('C06', 'Store contents survive crashes: all or nothing, and acknowledged means kept',
     'If a process using the file or SQL store is killed, or the machine loses power, at any point of any '
     'operation, a store reopened afterwards works, every association it returns is exactly one that was '
     'stored, an association whose store call had returned is still found, and a nonce whose acceptance had been '
     'reported is still refused. The interrupted operation takes effect completely or not at all.',
     ['crash_points', 'histories', 'fault_sequences'],
     'all crash points between and inside system calls, with loss of data not flushed to disk',
     'no test kills a process or drops unflushed data',
     [FS, SQ],
     [('flush before rename', FS + ':FileOpenIDStore.storeAssociation'),
      ('commit', SQ + ':SQLStore._callInTransaction')],
     observe=['store operations after restart'])

prop('C07', 'File store I/O errors are reported and damage nothing',
     'When a file system call fails (I/O error, disk full, no permission, short write) during an operation of '
     'the file store, the operation either still does what it reports or raises the error to its caller; it never '
     'reports success for something it did not do. Other entries, and the previous value of the same entry, are '
     'unaffected, no temporary files are left behind, and the store works again as soon as the error condition ends.',
     ['fault_sequences', 'histories'],
     'all positions of one or more failing file system calls in all operation histories',
     'tests never make a file system call fail',
     [FS],
     [('error path removing the temporary file', FS + ':FileOpenIDStore.storeAssociation'),
      ('errno-specific handling', FS + ':_removeIfPresent')],
     observe=['return values, exceptions, directory contents'])

prop('C08', 'SQL store operations are atomic under database errors',
     'When the database fails a statement or a commit, drops the connection, or reports an error after having '
     'committed, the store operation raises that error, leaves either all or none of its effect, and '
     'the same store object works again on the next call without seeing leftovers of the failed one. '
     'A nonce is reported as used only if it was durably recorded and as already used only if it was.',
     ['fault_sequences', 'histories', 'configurations'],
     'all positions of failing statements, commits and rollbacks in all operation histories, for the SQLite, '
     'MySQL and PostgreSQL store classes',
     'SQL tests run on a healthy database (and not at all for MySQL and PostgreSQL here)',
     [SQ],
     [('transaction wrapper', SQ + ':SQLStore._callInTransaction'),
      ('constraint handling', SQ + ':SQLStore.txn_useNonce')],
     observe=['return values, exceptions, table contents seen by a second connection'])

prop('C09', 'A provider confirms an assertion at most once, and only if it made it',
     'A provider answers a direct verification request positively only if it issued exactly that assertion '
     'itself, unaltered, without a shared association, it has not expired, and it has not been '
     'confirmed before; this holds however many copies of the request arrive, concurrently or after restarts, at '
     'whichever of its workers. The first verification of a fresh genuine assertion is confirmed.',
     ['schedules', 'histories', 'fault_sequences', 'inputs'],
     'all interleavings of verification requests over workers sharing a store, with altered, replayed and '
     'foreign assertions',
     'tests verify one response once or twice in sequence with one server object',
     [SV],
     [('verify then invalidate', SV + ':CheckAuthRequest.answer'), ('private association lookup', SV + ':Signatory.verify')],
     observe=['is_valid in the response to check_authentication'])

prop('C10', 'Shared and private association keys of a provider are never mixed',
     'A provider never confirms through direct verification anything signed with an association it shares with '
     'a relying party, never treats one of its own private associations as usable by a relying party, and never '
     'lets a relying party choose or learn a handle that makes it do so. When a request names an '
     'unknown, expired or private handle, the provider falls back to a private association and tells the relying '
     'party to invalidate the handle; a live shared handle named in a request is the one used, and an invalidation is '
     'confirmed only for a handle that is no longer shared.',
     ['histories', 'inputs', 'fault_sequences'],
     'all histories of association, login and verification requests mixing handles of all kinds',
     'tests look at single calls with one association in the store',
     [SV],
     [('separate key spaces', SV + ':Signatory._normal_key, Signatory._dumb_key'),
      ('fallback', SV + ':Signatory.sign')],
     observe=['assoc_handle, invalidate_handle and is_valid in responses'])

prop('C11', 'Expired associations are never used',
     'After an association has expired by the clock of the side using it, a relying party neither sends it in new requests nor '
     'accepts an assertion signed with it, a provider neither signs a response that a relying party would have to '
     'check with it nor verifies with it, whatever clock jumps, skews, clean-ups or '
     'restarts occur.',
     ['histories', 'schedules', 'configurations'],
     'all histories of requests with clocks of both sides moving, jumping and disagreeing, in every bundled store',
     'tests construct an expired association by hand in a few places; no test lets time pass between the steps',
     [AS, CO, SV, FS, MS, SQ],
     [('remaining life', AS + ':Association.getExpiresIn'), ('check before use', CO + ':GenericConsumer._idResCheckSignature, _getAssociation'),
      ('check before signing', SV + ':Signatory.getAssociation')],
     observe=['messages sent, login outcomes'])

prop('C12', 'Both ends of an association agree on the key',
     'Whenever a relying party records an association after an exchange with a provider, the provider holds the '
     'same handle with the same secret and type, and its lifetime does not outlast the provider\'s by the '
     'provider\'s own answer; this holds for every association and session type, and against any peer that '
     'follows the OpenID specification, for all values drawn in the key exchange. Otherwise no association is recorded at all. '
     'An undisturbed exchange of a type both sides support always results in an association.',
     ['inputs', 'fault_sequences', 'configurations'],
     'all key-exchange values (including those with leading zero bytes), session types, protocol versions and '
     'corrupted or duplicated exchanges',
     'tests use a few random key pairs between two copies of the same code; values needing special encoding occur '
     'about once in 250 exchanges and are invisible between two copies of the same code',
     [CO, SV, 'openid/dh.py', 'openid/cryptutil.py', AS],
     [('DH exchange', 'openid/dh.py:DiffieHellman.xor_secret'), ('integer encoding', 'openid/cryptutil.py:int_to_bytes, fix_btwoc'),
      ('extraction', CO + ':GenericConsumer._extractAssociation')],
     observe=['contents of both stores'])

prop('C13', 'Association negotiation stays inside policy and is bounded',
     'A relying party only ever establishes an association whose type and session type its own policy allows and '
     'a provider only ever issues one its policy allows; no answer from the other side can make either '
     'use another type, or make a relying party\'s clear-text request go where policy or a non-encrypted '
     'channel forbids it. For one login a relying party sends at most two association requests, whatever the '
     'answers; and if none succeeds it continues without an association.',
     ['fault_sequences', 'inputs', 'configurations'],
     'all policies on both sides and all sequences of (possibly hostile) answers',
     'tests replay a few fixed answers against a stubbed request function',
     [CO, SV, AS],
     [('negotiation', CO + ':GenericConsumer._negotiateAssociation'), ('policy', AS + ':SessionNegotiator'),
      ('provider side check', SV + ':Server.openid_associate')],
     observe=['association requests on the wire, contents of the stores'])

prop('C14', 'Network failures never escape a relying party as anything undefined',
     'Whatever the network does while a relying party starts or completes a login - refused, lost, delayed, cut '
     'or garbage responses, wrong status codes, undecodable bodies - starting a login returns a request or raises '
     'a discovery failure, and completing one returns a definite response (success, failure, cancel or '
     'setup needed). The call makes a bounded number of requests and never loops.',
     ['fault_sequences', 'inputs'],
     'all combinations of failures at every network exchange of discovery, association, verification and re-discovery',
     'tests inject one exception at a time into a stub and never a malformed body at each hop',
     [CO, DI, FE, ME, 'openid/kvform.py'],
     [('direct request error mapping', CO + ':makeKVPost, _httpResponseToMessage'), ('exception mapping', CO + ':GenericConsumer.complete')],
     observe=['return values and exceptions of Consumer.begin and Consumer.complete'])

prop('C15', 'Logins work again once faults stop',
     'After any sequence of network failures, lost or expired associations, crashes and restarts of either side, '
     'and loss of either side\'s store, once faults stop and clocks agree within the permitted skew, a user '
     'who starts a fresh login and is approved is logged in at the first attempt, in a new session or in one that went '
     'through the faults, alone or at the same time as others.',
     ['fault_sequences', 'crash_points', 'histories'],
     'all fault histories followed by a fault-free period',
     'no test recovers from anything: each starts from an empty or hand-made store',
     [CO, SV, FS, MS, SQ],
     [('fallback to direct verification', CO + ':GenericConsumer._idResCheckSignature, _checkAuth'),
      ('invalidate_handle', CO + ':GenericConsumer._processCheckAuthResponse'), ('fallback to private association', SV + ':Signatory.sign')],
     observe=['outcome of logins after the last fault'])

prop('C16', 'Without faults every login ends exactly as the provider decided',
     'With all parties honest and the network merely delaying, reordering or interleaving concurrent logins, '
     'each login ends with success for the right identifier if the provider approved it, cancel if it declined, and setup '
     'needed if an immediate request could not be approved; this holds for protocol versions 1 and 2, '
     'associated and unassociated modes, provider-selected and delegated identifiers, and redirects or form posts. '
     'Following the cancel address of a request counts as declining it, and the set-up address a provider names when an '
     'immediate request could not be approved leads to an ordinary request for the same identifier, realm and return address. '
     'A provider refuses to approve a request for an identifier other than the one asked about, or for none when it was to select one.',
     ['schedules', 'configurations', 'inputs'],
     'all configurations of both ends, all interleavings of concurrent logins, skewed clocks within the permitted limits',
     'the tests exercise each end separately against hand-made messages of the other end',
     [CO, SV, ME, DI],
     [('request encoding', CO + ':AuthRequest.getMessage'), ('answering', SV + ':CheckIDRequest.answer'),
      ('completion', CO + ':GenericConsumer.complete')],
     observe=['Response returned by Consumer.complete'])

prop('C17', 'Discovery returns what the identifier\'s own documents say, in priority order',
     'Discovering an identifier yields exactly the services its documents declare at that time, in priority '
     'order and with provider-identifier services first, bound to the identifier as finally '
     'resolved through redirects; lost, cut, delayed or failing fetches yield a discovery failure or the lower-'
     'precedence document that was really served, never another identifier\'s services or a mixture.',
     ['fault_sequences', 'inputs', 'histories'],
     'all document sets, redirects, failures and document changes between fetches',
     'tests serve fixed documents over a fixed stub with no failures in between',
     [DI, 'openid/yadis/discover.py', 'openid/yadis/etxrd.py', 'openid/yadis/services.py', 'openid/yadis/filters.py',
      'openid/yadis/xrires.py', 'openid/yadis/parsehtml.py'],
     [('Yadis', 'openid/yadis/discover.py:discover'), ('ordering', DI + ':getOPOrUserServices, arrangeByType'),
      ('priorities', 'openid/yadis/etxrd.py:iterServices, prioSort')],
     observe=['result of discovery, services tried'])

prop('C18', 'Successive login attempts walk all services of an identifier once each',
     'When starting a login fails or is repeated in one user session, each further attempt uses the next service '
     'of the identifier in order and every service is tried once before discovery is done again; a successful '
     'login forgets the list, so that the next one starts from fresh discovery. Logins for '
     'different identifiers in one session never use each other\'s services.',
     ['histories', 'fault_sequences'],
     'all interleavings of starting, failing, completing and switching identifiers in one session',
     'tests drive the session manager through a few fixed steps, never together with failures and several identifiers',
     [MG, CO],
     [('service list in the session', MG + ':Discovery.getNextService, YadisServiceManager'), ('clean-up', CO + ':Consumer.complete')],
     observe=['endpoint of each started login, session contents, discovery fetches'])

prop('C19', 'Providers release assertions only to verified relying-party addresses',
     'A provider builds a positive assertion only for a return address that lies inside the realm shown to the '
     'user, and reports a return address as verified only if the realm\'s own document, fetched without '
     'being redirected elsewhere, lists a matching address; failures, redirects and garbage '
     'during that check are never reported as verified and raise nothing but the documented discovery or '
     'fetching errors.',
     ['inputs', 'fault_sequences'],
     'all realms, return addresses, documents and network failures',
     'tests check fixed pairs and a stubbed discovery function',
     [TR, SV],
     [('realm match', TR + ':TrustRoot.validateURL'), ('relying-party discovery', TR + ':verifyReturnTo, getAllowedReturnURLs'),
      ('check on request', SV + ':CheckIDRequest.__init__')],
     observe=['result of returnToVerified, location of the response'])

prop('C20', 'Extension data read as signed is what the provider sent',
     'A provider reads from an unaltered request exactly the extension requests (registration, attribute fetch and store, '
     'authentication policy, other extensions) the relying party made. Values that a relying party reads from a successful response as '
     'signed are exactly the values the provider put into that answer, for every set of values, protocol version, transport and '
     'mix of concurrent logins. If values were added, removed, renamed or changed on the way, the login fails or the extension\'s data is not '
     'reported as signed (reading it may raise ValueError or KeyError). Over OpenID 1 only registration data is carried. An empty value removed on the way may go unnoticed.',
     ['inputs', 'fault_sequences'],
     'all extension contents and all alterations in transit',
     'tests encode and parse extension messages without the signed round trip and without an adversary',
     ['openid/extensions/sreg.py', 'openid/extensions/ax.py', 'openid/extensions/pape.py', ME, CO],
     [('signed namespace view', CO + ':SuccessResponse.getSignedNS'), ('namespace aliases', ME + ':NamespaceMap')],
     observe=['extension responses built from a SuccessResponse'])

prop('C21', 'An HTTP fetch returns exactly what the server said, or fails in the documented way',
     'With each bundled fetcher, wrapped as the library does, also while several threads share it: a fetch returns the status, '
     'headers (looked up by their lower-case names), final address and body of the page that the request and its redirects lead '
     'to, or raises HTTPFetchingError, whatever the peer or network does (refuse, reset, cut, stall, answer garbage). It does not '
     'fail if nothing went wrong within a few redirects. The final address is the one actually reached, never one the server merely names; '
     'a body known to be cut short is never returned as complete; a final body without end is not read beyond about one MiB (except '
     'by the httplib2 fetcher, which has no limit); a chain of redirects ends, within 20 seconds for the curl fetcher; and no '
     'answer comes from a scheme other than http or https. How a redirected POST is repeated is left to the HTTP library.',
     ['fault_sequences', 'inputs', 'configurations'],
     'all behaviours of the transport under each bundled fetcher',
     'tests talk to one well-behaved local server',
     [FE],
     [('wrapper', FE + ':ExceptionWrappingFetcher'), ('per-library fetchers', FE + ':Urllib2Fetcher, RequestsFetcher, HTTPLib2Fetcher, CurlHTTPFetcher')],
     observe=['return value or exception of fetch'])

prop('C22', 'Generated nonces, handles and secrets never repeat',
     'All response nonces, association handles and association secrets issued by a provider (all its workers, '
     'across restarts) and all nonces issued by a relying party are pairwise distinct, even '
     'when the clock stalls or steps back and many are issued in the same second; secrets have the '
     'full length of their type.',
     ['schedules', 'histories', 'configurations'],
     'all issue histories with stalled, stepping and disagreeing clocks and concurrent workers',
     'tests create two values and compare them',
     [NO, SV, CO],
     [('salted timestamps', NO + ':mkNonce, make_nonce_salt'), ('handles', SV + ':Signatory.createAssociation')],
     observe=['messages on the wire'])

prop('C23', 'Workers sharing a store are interchangeable',
     'The steps of a login - association, request, approval, response, verification, completion - may each be '
     'handled by a different worker process of the provider and of the relying party that shares only the store '
     '(and the user\'s session), with workers restarted at any time between steps, and the outcome is the same as '
     'with a single worker.',
     ['schedules', 'configurations', 'crash_points'],
     'all assignments of steps to workers and all restart points between steps',
     'each test uses one server or consumer object for everything',
     [SV, CO, MG, FS, SQ],
     [('all state in the store', SV + ':Signatory'), ('all state in the session', CO + ':Consumer.begin, Consumer.complete')],
     observe=['login outcomes'])

prop('C24', 'Association secrets are not disclosed',
     'No association secret, and nothing that decodes to it, appears in clear on any message between '
     'the parties except as the answer to a request that asked for an unencrypted session, and a provider\'s '
     'private secrets never leave it at all; a relying party never asks for an unencrypted session on its '
     'own unless its policy allows it.',
     ['histories', 'inputs', 'configurations'],
     'all messages of all flows, including error answers to malformed requests',
     'tests compare expected fields and do not look for the secret elsewhere',
     [SV, CO, 'openid/dh.py'],
     [('DH session', SV + ':DiffieHellmanSHA1ServerSession.answer'), ('session choice', CO + ':GenericConsumer._createAssociateRequest')],
     observe=['every byte on the simulated wire'])

prop('C25', 'Providers answer every request in a defined way',
     'Whatever arrives at a provider\'s endpoint - requests cut, altered, duplicated or replayed in transit - '
     'it either yields a request object to decide on, or no OpenID request, or a protocol error; decoding, '
     'handling, answering and encoding raise nothing but their documented errors (ProtocolError, and '
     'EncodingError for what has no encoding), direct answers are well-formed, and an answer or error is sent '
     'by redirect or form only to the request\'s own return address, only if that is a usable http or https '
     'address, and to OpenID 1 relying parties by redirect only. The provider goes on serving others.',
     ['fault_sequences', 'inputs'],
     'all alterations of all request kinds at every stage',
     'tests send a few malformed requests each lacking one field',
     [SV, ME],
     [('decoding', SV + ':Decoder.decode'), ('error encoding', SV + ':ProtocolError, Encoder')],
     observe=['results and exceptions of Server.decodeRequest, handleRequest, encodeResponse'])

prop('C26', 'Relying parties answer whatever a browser delivers',
     'Whatever arguments a browser delivers to a relying party\'s return address - answers of providers with any field removed, replaced or added, '
     'signed again by a provider or not, messages of another protocol version, requests instead of answers, or arbitrary text - '
     'Consumer.complete raises nothing and returns one of its documented responses within a bounded number of requests: success only for mode id_res, '
     'cancel only for mode cancel, setup_needed only for mode setup_needed or an OpenID 1 id_res naming a setup URL, and failure with a '
     'readable reason for everything else. An ordinary login in the same session succeeds afterwards.',
     ['fault_sequences', 'histories', 'inputs'],
     'all alterations of all messages at every return address, with the session there or lost and the network failing or not',
     'tests complete logins with a few hand-made queries each lacking or altering one field, and stub out verification',
     [CO, ME, AS, FS],
     [('dispatch by mode', CO + ':Consumer.complete, GenericConsumer.complete'), ('field checks', CO + ':GenericConsumer._idResCheckForFields'),
      ('return address', CO + ':GenericConsumer._checkReturnTo'), ('namespaces', ME + ':Message.fromPostArgs')],
     observe=['result or exception of Consumer.complete'])

# --------------------------------------------------------- not applicable
NA = []


def na(id, title, statement, files, reason):
    prop(id, title, statement, ['inputs'], 'all inputs', 'tests sample a table of inputs', files,
         [('pure function', files[0])])
    NA.append(dict(property=id, reason=reason))


na('C90', 'Key-value form round-trips',
   'Every sequence of string pairs that can be encoded in key-value form decodes to itself, and malformed input is '
   'rejected in strict mode.', ['openid/kvform.py'],
   'pure function of its argument: no schedule, clock, I/O, fault or second party for a simulator to control')
na('C91', 'URL and identifier normalisation is idempotent and meaning-preserving',
   'Normalising a URL or XRI twice gives the same result as once and never changes which resource it names.',
   ['openid/urinorm.py', 'openid/yadis/xri.py'],
   'pure function of its argument: no schedule, clock, I/O or fault; the effect on logins is covered in C16 and C17')
na('C92', 'Realm matching implements the specification',
   'A return address matches a realm exactly if the specification says so.', ['openid/server/trustroot.py'],
   'pure predicate on two strings; its use in the provider flow, where network and adversary matter, is C19')
na('C93', 'Integer encoding round-trips',
   'Converting an integer to its wire encoding and back gives the same integer, with the encoding minimal and non-negative.',
   ['openid/cryptutil.py'],
   'pure function; its effect on key agreement between two parties is decided in C12')

CHECKED = os.environ.get('CATALOG_CHECKED')


def main():
    implemented = set()
    pd = os.path.join(HERE, 'sim', 'props')
    for f in os.listdir(pd):
        if f.endswith('.py') and f[0] == 'c' and f[1:3].isdigit():
            implemented.add(f[:3].upper())
    na_ids = {x['property']: x for x in NA}
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as out:
        for p in P:
            q = dict(p)
            q.pop('note')
            out.write(json.dumps(q, ensure_ascii=True) + '\n')
    checks = []
    not_app = []
    for p in P:
        if p['id'] in na_ids:
            not_app.append(na_ids[p['id']])
        elif p['id'] in implemented:
            cmd = '%s -B check.py --property %s' % (PY, p['id'])
            checks.append(dict(
                property=p['id'], quick_cmd=cmd + ' --tier quick', thorough_cmd=cmd + ' --tier thorough',
                evidence_file='evidence/%s.json' % p['id'],
                technique='deterministic simulation with fault injection (seeded search)',
                level='exploration', level_note=LEVEL_NOTE.get(p['id'], DEFAULT_NOTE)))
        else:
            not_app.append(dict(property=p['id'], reason='check not built yet'))
    man = dict(version=1, setup_cmd='%s -B check.py --selftest' % PY, checks=checks, not_applicable=not_app)
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as out:
        json.dump(man, out, indent=1)
        out.write('\n')


DEFAULT_NOTE = ('seeded sampling of schedules, faults and inputs over the real library code; a clean run is '
                'evidence over the sampled space, not proof')
LEVEL_NOTE = {}

if __name__ == '__main__':
    main()
