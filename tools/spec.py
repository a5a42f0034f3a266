#!/opt/veriftools/pyvenv/bin/python3
"""Regenerates properties.jsonl and MANIFEST.json from the table below (and checks both against the schemas)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = 'contracts/'
IRC, FLX, ICX = C + 'irc_token/irc_token.py', C + 'flexible_token/flexible_token.py', C + 'icx_token/icx_token.py'
CONV, NET, REG = C + 'converter/converter.py', C + 'network/network.py', C + 'score_registry/score_registry.py'
OWN, MAN, HOLD = C + 'utility/owned.py', C + 'utility/managed.py', C + 'utility/token_holder.py'
CTL, UTIL, FORM = C + 'utility/flexible_token_controller.py', C + 'utility/utils.py', C + 'formula/fixed_map_formula.py'
PROXY = C + 'utility/proxy_score.py'

# id: (title, statement, quantifier over, quantifier text, why tests cannot, files, mechanism)
P = {}


def p(pid, title, statement, over, text, why, files, mechanism):
    P[pid] = dict(id=pid, title=title, statement=statement, quantifier={'over': over, 'text': text},
                  why_tests_cant=why, anchors={'files': files, 'mechanism': [{'name': mechanism, 'where': ', '.join(files)}]})


p('C01', 'Token transfers move exactly the amount and conserve the supply',
  'A transfer succeeds exactly when the amount is not negative, covered by the sender\'s balance, and the recipient '
  'is allowed (not the zero address; for ICX tokens not the token itself; the receiving contract agrees). A '
  'successful transfer lowers the sender\'s and raises the recipient\'s balance by exactly the amount (nothing for '
  'a transfer to oneself), touches no other balance and leaves the total supply alone; a refused one changes nothing.',
  ['inputs', 'histories'], 'every sender, recipient, amount and prior balances, for all three token kinds',
  'the unit tests move fixed amounts between two mocked accounts; self transfers, zero and overdrawn amounts, '
  'aliasing of sender, recipient and bystander are unbounded inputs',
  [IRC, FLX, ICX], 'balances are changed only by the internal transfer routine: guard on value and balance, then two '
  'storage updates in sequence (which also handles sender == recipient)')
p('C02', 'A contract receiving tokens is told once, truthfully, and can refuse',
  'When tokens are sent to a contract, the contract is notified exactly once, after the balances moved, with the '
  'sender, the amount and the data the sender gave; an account that is no contract is never notified. If the '
  'contract refuses, the whole transfer is undone. Every successful transfer emits exactly one Transfer event with '
  'sender, recipient, amount and data.',
  ['inputs', 'fault_sequences'], 'every recipient (contract or not), data, amount, and accept/refuse decision',
  'tests patch the external call away and use one mocked recipient; refusal and rollback are never exercised on real '
  'storage', [IRC, FLX, ICX], 'token fallback call after the storage updates, inside the same atomic transaction')
p('C03', 'Only the owner issues flexible tokens; only owner or holder destroys them',
  'Issuing succeeds exactly for the owner with a positive amount and a valid recipient other than the token itself, '
  'and raises the recipient\'s balance and the supply by exactly that amount. Destroying succeeds exactly for the '
  'holder or the owner with a positive amount the holder has, and lowers both by exactly that amount. Each emits the '
  'matching supply event and Transfer event; every refusal changes nothing.',
  ['inputs', 'histories'], 'every caller, holder, amount, and prior balances',
  'tests check a few callers and amounts with a mocked owner; conservation across arbitrary holders and aliasing of '
  'caller, owner and holder is not sampled', [FLX, OWN], 'owner check, positive check, balance and supply updated together')
p('C04', 'The transfer switch stops exactly the transfers, and only its owner moves it',
  'While transfers are disabled every transfer of the flexible token fails and changes nothing; while enabled the '
  'switch has no influence on transfers. Only the owner can move the switch, its state always equals the last '
  'successful setting (initially enabled), and issuing or destroying tokens does not depend on it.',
  ['histories', 'inputs'], 'every sequence of switch attempts by arbitrary callers followed by any transfer, issue or destroy',
  'tests toggle the flag once as owner and send one transfer', [FLX, CTL], 'transfer possibility flag checked before the base transfer')
p('C05', 'ICX tokens are always fully backed by ICX',
  'At all times the total supply of an ICX token equals the ICX held by its contract, provided nothing else was ever '
  'paid into it. A deposit (method or plain payment) credits exactly the paid value to the payer; a withdrawal '
  'succeeds exactly for a positive amount the caller holds if the payee accepts it, destroys exactly that amount and '
  'pays out exactly that ICX to the chosen payee. Each emits its documented events.',
  ['histories', 'inputs', 'fault_sequences'], 'every operation from every reachable state, any amount, any payee, payee accepting or refusing',
  'backing is an invariant over all histories; the ICX token unit tests are not even in the stable set and mock ICX '
  'transfers', [ICX, IRC], 'deposit and withdrawTo update balance, supply and ICX in the same transaction')
p('C06', 'A re-entering payee cannot withdraw more ICX than it owns',
  'If the payee of a withdrawal is a contract that calls back into the ICX token while being paid (withdrawing, '
  'depositing or transferring again), the backing of the token still holds afterwards and the payee ends with no more '
  'than it was entitled to before.',
  ['schedules', 'inputs'], 'every re-entrant operation, with any amount, during any withdrawal',
  'no test installs a re-entering contract', [ICX], 'balances and supply are reduced before ICX is sent')
p('C07', 'Tokens start with exactly the configured supply',
  'A deployment with a non-negative initial supply and decimals gives initialSupply * 10^decimals units to the '
  'deployer, nobody else holds anything, and total supply, name, symbol and decimals read back as configured. '
  'A negative supply or decimals is refused.',
  ['inputs', 'configurations'], 'every initial supply; decimals -1, 0, 1, 2, 8, 18, 30',
  'tests deploy one configuration', [IRC, FLX], 'on_install computes total = supply * 10**decimals and credits the deployer')
p('C08', 'Ownership moves only by the owner\'s offer and the candidate\'s acceptance',
  'For every owned contract, the owner is the deployer until a candidate named by the owner accepts; only the current '
  'owner can name one (not itself; a later offer replaces the earlier one, the zero address cancels it) and only the '
  'named candidate can accept, once. On acceptance the candidate is the owner, the offer is gone and one OwnerUpdate '
  'event names the old and the new owner; nothing else changes owner or offer.',
  ['histories', 'inputs'], 'every sequence of offers and acceptances by arbitrary callers naming arbitrary addresses, on each contract',
  'tests run the one happy sequence with fixed addresses', [OWN, REG, NET, FLX, ICX, CONV], 'owner / new owner variables guarded by two checks')
p('C09', 'Converter management moves only by offer and acceptance',
  'The deployer is the first manager of a converter. The owner or the current manager can name a new manager (other '
  'than the current one) and only the named account can accept, after which it is the manager, the offer is gone and '
  'one ManagerUpdate event names the old and the new manager; nothing else changes manager or offer.',
  ['histories', 'inputs'], 'every sequence of offers and acceptances by arbitrary callers naming arbitrary addresses',
  'tests run the one happy sequence on a bare Managed contract, never through a converter', [MAN, CONV], 'manager / new manager variables guarded by role checks')
p('C10', 'Privileged operations work only for the roles that hold the privilege',
  'Every operation reserved to the owner (or to owner and manager) is refused for everyone else, leaving all state '
  'unchanged, and is not refused to the entitled role when its arguments and the contract\'s phase are valid. An '
  'account without a role can, with any call to any externally callable method, change no setting, role, registry '
  'entry or other account\'s tokens except through the conversion and transfer rules.',
  ['inputs', 'programs'], 'every caller, every externally callable method of every contract, arbitrary arguments, each converter phase',
  'tests check one wrong caller for some methods; the set of entry points and argument values is unbounded',
  [CONV, NET, REG, FLX, ICX, OWN, MAN, HOLD, CTL], 'role checks at the top of every privileged method')
p('C11', 'The registry answers with the owner\'s last registration',
  'Looking up a name returns the address of its last successful registration, or the zero address if it was never '
  'registered or was unregistered since; the registry itself is registered from deployment. Only the owner can '
  'register, only contract addresses, and only under known names; unregistering needs an existing entry. Every change '
  'emits one AddressUpdate event naming the entry and its new address, and affects no other name.',
  ['histories', 'inputs'], 'every sequence of registrations and removals by arbitrary callers with arbitrary names and addresses',
  'tests register one or two fixed entries', [REG], 'name -> address map guarded by owner, contract and known-name checks')
p('C12', 'Withdrawing held tokens moves exactly what the owner asked for',
  'Tokens held by the network, the tokens or a converter leave through a withdrawal only when the owner asks, for a '
  'positive held amount, to a valid account other than the contract itself, and then exactly that amount of exactly '
  'that token moves to exactly that account. The converter\'s owner can likewise withdraw what is held by its '
  'flexible token while it controls it. A refused withdrawal changes nothing.',
  ['inputs'], 'every caller, token, amount and destination',
  'tests mock the token call and only look at its arguments for fixed values', [HOLD, CTL, CONV, NET, FLX, ICX], 'owner, positive-value and destination checks, then a transfer on the token')
p('C13', 'The connector set stays consistent: weights total at most 100 %',
  'A converter\'s connectors are exactly those successfully added, in order, each once, none being the flexible token '
  'or the converter itself, each with a weight in (0, 100 %], and their weights total at most 100 % at all times, '
  'also after updates. Adding is possible only while the converter is inactive. Reading a connector returns exactly '
  'its last set weight, virtual balance, and flags; a deployment with invalid arguments is refused.',
  ['histories', 'inputs'], 'every deployment and sequence of add, update and disable operations with arbitrary tokens, weights, flags and virtual balances',
  'tests add fixed weights; the total-weight invariant is over all histories of additions and updates',
  [CONV], 'total weight variable adjusted together with each connector\'s weight, checked before commit')
p('C14', 'The conversion fee never exceeds the maximum fixed at deployment',
  'At every moment 0 <= fee <= maximum fee <= 100 %, the maximum never changes after deployment and the fee is what '
  'the owner or manager last set successfully (initially zero). Setting succeeds exactly for owner or manager within '
  'those bounds, and emits one event with the previous and the new fee.',
  ['histories', 'inputs'], 'every maximum, every sequence of fee changes by arbitrary callers with arbitrary values',
  'tests set a handful of values', [CONV], 'range check against the stored maximum')
p('C15', 'The fee rounds for the pool, never exceeds the amount, and is monotone',
  'The amount after fee is the amount times (1 - fee) once for conversions with the flexible token and twice for '
  'conversions between connectors, rounded down exactly. It lies between zero and the amount, is the amount itself '
  'when the fee is zero and zero when the fee is 100 %, grows with the amount and shrinks with the fee.',
  ['inputs'], 'every amount, every fee', 'tests compare a few amounts against the same expression',
  [CONV], 'integer arithmetic amount * (1000000 - fee)^magnitude / 1000000^magnitude')
p('C16', 'A quote is exactly what the conversion then delivers',
  'In an unchanged state, the amount and fee quoted for converting an input equal the return and fee of executing '
  'that conversion, for purchases, sales and conversions between connectors, with actual or virtual balances. The '
  'quote is the pricing formula applied to the current supply, the current connector balances before the deposit and '
  'the weights, minus the fee; what cannot be priced is not quoted.',
  ['inputs', 'histories'], 'every market state (reserves, supply, weights, virtual balances), fee, amount',
  'converter conversion tests are not in the stable set; quote and execution are never compared',
  [CONV, FORM], 'get_*_return(…, is_actual) subtracts the already deposited amount in the executing call')
p('C17', 'Buying issues exactly the return against exactly the deposit',
  'A purchase adds exactly the paid amount to the connector reserve (and to its virtual balance if enabled), issues '
  'exactly the return to the requester and raises the flexible supply by exactly that; nothing else changes: other '
  'reserves, weights, settings and balances stay. A refused purchase changes nothing at all.',
  ['inputs', 'histories'], 'every market state and fee, any amount and minimum', 'purchase tests run mocked storage and mocked formula on one input',
  [CONV, FLX], 'virtual balance update and issue after pricing')
p('C18', 'Selling destroys exactly the input and pays exactly the return',
  'A sale destroys exactly the flexible tokens paid in, lowers the supply by that, pays exactly the return from the '
  'chosen connector reserve to the requester (and lowers its virtual balance by that if enabled); nothing else '
  'changes. A refused sale changes nothing at all.',
  ['inputs', 'histories'], 'every market state and fee, any amount and minimum', 'sale tests run mocked storage and mocked formula on one input',
  [CONV, FLX], 'destroy of the received tokens, virtual balance update, transfer to the requester')
p('C19', 'Converting between connectors moves only those two reserves',
  'A conversion between two connectors adds exactly the paid amount to the source reserve, takes exactly the return '
  'from the target reserve to the requester, adjusts enabled virtual balances by the same amounts, and leaves the '
  'flexible supply and everything else unchanged. A refused one changes nothing at all.',
  ['inputs', 'histories'], 'every market state and fee, any amount and minimum', 'tests use mocked storage and one input',
  [CONV], 'two virtual balance updates and one transfer')
p('C20', 'Nobody receives less than the minimum return they demanded',
  'A conversion executes only if its return is at least the demanded minimum, and the minimum must be a positive '
  'number; otherwise it is refused and nothing changes. It is never refused for its minimum when the return reaches it.',
  ['inputs'], 'every market state, fee, amount and minimum (also zero and negative)', 'tests try one satisfied and one missed minimum',
  [CONV], 'minimum checks before state changes')
p('C21', 'Conversions run only when allowed, and only on behalf of the network',
  'A conversion is executed only if the request comes from the registered network, conversions are enabled, the two '
  'tokens differ and both belong to the converter, purchases are enabled on the connector a purchase pays with or a '
  'conversion between connectors draws from (sales ignore that switch), and the converter controls the flexible token. Owner and manager alone can pause and '
  'resume conversions, an event reports each change, and a paused converter converts nothing.',
  ['inputs', 'configurations', 'histories'], 'every requester, every pair of tokens, every combination of the switches',
  'tests flip one switch at a time on mocks', [CONV, CTL], 'checks at the start of the conversion and in the quoted price')
p('C22', 'Virtual balances, when enabled, alone determine prices',
  'With virtual balance enabled on a connector its prices depend on the virtual balance and not on the tokens held; '
  'with it disabled they depend on the tokens actually held and not on the stored virtual balance. The reported '
  'connector balance is the one prices use.',
  ['inputs', 'configurations'], 'two market states differing only in the balance that must not matter, any amount and fee',
  'a two-state comparison over all states', [CONV], 'connector balance read chooses virtual or actual balance')
p('C23', 'Trades never drain a reserve; the owner withdraws only while inactive',
  'No conversion takes a whole reserve unless the entire supply is sold, and none makes a reserve, virtual balance '
  'or supply negative. The owner can withdraw connector tokens only while the converter is inactive; a withdrawal of '
  'tokens is exactly what was asked for and also lowers no other balance.',
  ['inputs', 'histories'], 'every market state, amount, fee; every withdrawal attempt in each phase',
  'tests check fixed numbers', [CONV, FORM], 'formula range, and inactivity check on connector withdrawals')
p('C24', 'Registry changes of a converter are controlled and reversible',
  'Anyone may make the converter follow its registry to the registry\'s announced valid successor while this is '
  'allowed, and only the owner may while it is not; otherwise the registry stays. Owner and manager alone can switch '
  'that permission and can always return to the previous registry, which also withdraws the permission. The previous '
  'registry is the one in use before the last update.',
  ['histories', 'inputs'], 'every sequence of update, restore and switch operations by arbitrary callers, registries pointing anywhere',
  'tests run one update with a mocked registry', [CONV, REG], 'registry / previous registry variables with a permission flag')
p('C25', 'A converter accepts plain token deposits only as funding before activation',
  'Connector tokens sent without a conversion request are accepted exactly when the sender is the owner or the '
  'manager and the converter does not yet control its flexible token. Every other transfer to a converter that is '
  'not a conversion request from the network is refused and the tokens stay with the sender.',
  ['inputs', 'configurations'], 'every sender, token, amount, converter active or not',
  'tests try the owner once with mocks', [CONV], 'token notification handler with the funding branch before request parsing')
p('C26', 'Conversion events report exactly what happened',
  'Every executed conversion emits exactly one Conversion event with source and target token, requester, amount, '
  'return and fee, and price data events with the resulting supply, connector balance and weight of each connector '
  'involved; a refused conversion emits none.',
  ['inputs'], 'every market state, fee, conversion', 'tests mock the events and check only that they were called',
  [CONV], 'event emission after all state changes')
p('C27', 'A path conversion takes the input, delivers to the beneficiary, keeps nothing',
  'A successful conversion through the network takes exactly the offered input from the trader, delivers the result '
  '(at least the demanded minimum) to the beneficiary and to nobody else, and leaves the network holding exactly what '
  'it held before. A request whose quoted result covers its minimum is honoured, a failing hop undoes '
  'everything, and a misbehaving converter cannot make the network give away tokens it held before.',
  ['inputs', 'histories', 'fault_sequences'], 'every market state on one- and two-hop paths, any amount, minimum, beneficiary; hostile converters',
  'network tests mock every converter', [NET, CONV, FLX], 'balance difference before and after each hop determines the next amount')
p('C28', 'Only well-formed, non-circular paths of one to ten conversions are followed',
  'A path is accepted exactly if it has an odd number of entries from 3 to 21 and names no flexible token twice as a '
  'conversion step; it must start with the token actually paid. Any other or malformed path is refused, both for '
  'conversions and for quotes, and nothing changes.',
  ['inputs'], 'paths of 0 to 25 entries with repeated entries at every pair of positions; malformed texts',
  'tests try three lengths', [NET], 'length and set-size check on the parsed path')
p('C29', 'Malformed conversion requests are refused without effect',
  'Conversion data must be a JSON object with path and integer minimum return (network) or target token and minimum '
  '(converter). Requests with missing, malformed or wrongly typed parts, non-positive minimum or amount, or an invalid '
  'beneficiary are refused, and the tokens stay with the sender; a complete request is honoured, for the sender '
  'itself if no beneficiary is named.',
  ['inputs'], 'the shapes of request data listed in the check, with arbitrary amounts, minima and beneficiaries',
  'tests try two malformed requests', [NET, CONV], 'JSON parsing with per-key checks')
p('C30', 'ICX conversions wrap and unwrap exactly the ICX involved',
  'A conversion paid in ICX is accepted only through a registered ICX token as first path entry, converts exactly the '
  'paid ICX and leaves no ICX or tokens in the network. A conversion ending in a registered ICX token pays out ICX '
  'and destroys exactly that many ICX tokens; an unregistered one pays the token itself. Registration is the owner\'s '
  'last decision for that token.',
  ['inputs', 'histories'], 'every amount, market state, beneficiary, registration state', 'tests mock ICX transfer and all tokens',
  [NET, ICX], 'ICX transferred into the ICX token before converting; withdrawTo on the final token')
p('C31', 'A path quote equals what the path conversion delivers',
  'The expected return by path equals the chained quotes of the converters along it and equals what a conversion '
  'along that path in the same state delivers to the beneficiary. Non-positive amounts and invalid paths are not quoted.',
  ['inputs'], 'every market state, amount, one- and two-hop paths', 'tests mock converters',
  [NET, CONV], 'chained converter quotes')
p('C32', 'The formula prices exactly its documented domain; special cases are exact',
  'For amounts that are not negative, pricing succeeds exactly for positive supply, positive balances, weights in '
  '(0, 100 %], sales not above the supply, and bases within the representable range; everything else is refused. Zero amounts price at '
  'zero, selling everything yields the whole balance, and 100 % or equal weights give the exact rounded-down '
  'proportional result.',
  ['inputs'], 'all integers as arguments', 'the input validation test tries a few values per parameter',
  [FORM], 'argument checks and shortcut branches before the power function')
p('C33', 'Returns stay within the pool: never negative, never more than the reserve',
  'Every purchase return is non-negative; a sale returns less than the connector balance unless the whole supply is '
  'sold; a conversion between connectors returns less than the target balance.',
  ['inputs'], 'all valid arguments', 'random tests sample the range', [FORM], 'result = balance * (x - 1) / x with x >= 1')
p('C34', 'Prices follow the documented curve, never above it, and accurately',
  'Purchase, sale and cross-connector returns are those of the documented constant-reserve-ratio formulas: never above '
  'the exact value (up to a relative 2^-90 of the resulting pool amount), and, while the power involved stays below e^16, '
  'below it by less than one unit plus that margin. Larger powers are still at least the 34-term exponential series (and at least one).',
  ['inputs'], 'every supply, balance, weight and amount in the domain; every argument of the logarithm and exponential',
  'the random tests compare a few hundred points with floating-point-like tolerances',
  [FORM], 'fixed-point power with floor divisions, logarithm then exponential by tables and series')
p('C35', 'A round trip never makes a profit',
  'Converting an amount and immediately converting the proceeds back never yields more than was put in (up to the formula\'s precision, a relative 2^-68 of the pool, for weights that need the power series), with or '
  'without fee, whatever the market state; what is lost stays in the reserves.',
  ['inputs', 'histories'], 'every market state and amount, markets with exact arithmetic (100 % weight; equal weights)',
  'round trips are not tested on the contracts', [CONV, FORM], 'every rounding is in favour of the pool')
p('C36', 'The formula\'s integer helpers are exact',
  'The floor of the base-2 logarithm is exact for every positive number below 2^256. The precision chosen for an exponent is the '
  'highest whose tabulated limit admits it, and none is chosen when no limit admits it; the limits are strictly descending.',
  ['inputs'], 'every number in the stated ranges', 'tests do not address the helpers at their boundaries',
  [FORM], 'bisection over the bit length and over the table of limits')
p('C37', 'Contract state survives restarts and upgrades unchanged',
  'Everything a contract shows (balances, supply, roles and pending offers, settings, connectors, registry entries) '
  'is the same after the contract is reloaded from storage and after its upgrade hook ran, whoever triggers it; '
  'pending offers and role privileges keep working, and every later quote, conversion and administrative operation comes '
  'out as if nothing had been reloaded.',
  ['histories', 'crash_points'], 'each contract in a state with arbitrary amounts, addresses and settings; reload or upgrade at that point; '
  'reload or upgrade of everything at three points of a longer story',
  'tests keep one object with mocked storage alive; on_update is never run', [IRC, FLX, ICX, CONV, NET, REG, OWN, MAN],
  'all state in storage containers; upgrade hooks do nothing')
p('C38', 'Reading changes nothing',
  'No read-only method, called as a query or in a transaction by anyone with any arguments, changes any balance, '
  'role, setting or emits an event; nothing that happens afterwards depends on whether or when it was read.',
  ['inputs', 'histories'], 'every read-only method of every contract in a state with arbitrary amounts and settings, and in '
  'between the steps of a longer story',
  'tests compare return values only', [IRC, FLX, ICX, CONV, NET, REG, OWN, MAN], 'read-only methods only read storage')
p('C39', 'Only declared entry points can be called, and stray ICX is refused',
  'Initialisation, upgrade hooks and internal functions cannot be called from outside by anyone, so no contract can '
  'be initialised twice. ICX is accepted only as an ICX token deposit or an ICX conversion; any other payment is refused and stays '
  'with the payer.',
  ['inputs', 'programs'], 'every caller and amount, every listed internal function, plain payments and payments along with the listed methods',
  'tests call methods directly on the object, below the platform\'s entry point checks', [IRC, FLX, ICX, CONV, NET, REG],
  'external / payable declarations')

TECH = ('symbolic execution of the real Python contracts (bytecode run on symbolic integers, addresses and storage over '
        'the real iconservice); assertions decided by z3 over all values of each path; counterexamples replayed on the '
        'concrete runtime')
NOTE = ('Every path of the real code within the stated bound is explored and each assertion is decided by the solver for '
        'all values on the path. Trusts z3, the symbolic domain (validated per run against concrete executions), the '
        'in-memory storage layer under iconservice')
UF = ('. The power-series part of the pricing formula is an uninterpreted function with the range facts of C33; '
      'counterexamples are checked against the real formula')
UFP = {'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23', 'C25', 'C26', 'C27', 'C29', 'C30', 'C31', 'C32', 'C33', 'C37', 'C38', 'C43', 'C44', 'C45', 'C46', 'C48', 'C49'}
EXTRA_NOTE = {}
NOT_APPLICABLE = []
p('C40', 'The packaged contracts behave like the sources they are built from',
  'Each contract package produced by the generator, as files or as an archive, alone or with others, over earlier output '
  'or not, can be loaded on its own. It behaves exactly like the source tree it was generated from, for every call, and '
  'contains nothing left over from an earlier build.',
  ['programs', 'inputs'], 'every contract package and every call of it', 'tests import the source tree',
  ['build.py', 'contract_generator/builder.py', 'contract_generator/writer.py', 'contract_generator/config.py'],
  'files of the contract and its configured dependencies copied below one package root')
p('C41', 'Calls between contracts reach exactly the addressed contract',
  'A call through an interface proxy executes the named method of the contract at the given address, once, with exactly the '
  'given arguments, as the calling contract and without payment, and returns its answer. This holds however many proxies '
  'of the same or other interfaces were made before.',
  ['inputs', 'programs'], 'every interface and method, any arguments and answer, several proxies in use',
  'the unit tests patch the proxies away', ['contracts/utility/proxy_score.py', 'contracts/interfaces'],
  'proxy classes made from the abstract interface and cached per interface and function')
p('C42', 'Stored fields keep exactly what was assigned',
  'A field of the storage wrapper reads back the value last assigned to it, at once and in later transactions, and assigning '
  'it changes no other field and no other contract\'s fields. List and map fields hold exactly what was put in.',
  ['inputs', 'histories'], 'every kind of field and value, same or later transaction',
  'the wrapper is not tested', ['contracts/utility/storage.py'], 'shadow attributes holding the container objects')
p('C43', 'A refused request leaves no trace',
  'A request that is refused, because of who sent it, because of its arguments, or because its very last step fails, changes '
  'nothing that is stored and nothing a contract keeps in memory: every later quote, conversion, event and '
  'administrative operation comes out as if the request had never been sent.',
  ['inputs', 'histories'], 'refused requests of every kind at three points of a story with arbitrary weights and fees',
  'tests look at one refused call at a time, with mocked storage', [CONV, NET, REG, FLX, ICX, OWN, MAN],
  'storage is reverted by the platform; contracts keep no state of their own in memory')
p('C44', 'The event log accounts for every change',
  'Whatever is called, by anyone: the change of a token\'s supply equals what its Issuance and Destruction events announce, the '
  'change of every balance equals what its Transfer events announce (ICX withdrawn is announced as Destruction only), and '
  'a new owner, manager, fee, pause of conversions or registry entry is announced with the true previous and new value. '
  'Nothing is announced that did not happen.',
  ['inputs', 'histories'], 'every entry point with any arguments, and every kind of conversion',
  'tests check single mocked event calls', [IRC, FLX, ICX, CONV, REG, OWN, MAN],
  'events emitted next to the state change they describe')
p('C45', 'Nobody\'s tokens move without them',
  'Whatever anyone calls, with any arguments, the tokens and the ICX of an account that did not make the call never decrease; the only '
  'exception is that the owner of a flexible token may destroy it. What the network and a converter hold is never decreased by '
  'an account that has no role in the system and does not trade for it.',
  ['inputs'], 'every entry point of every contract, any caller and arguments', 'tests call single methods with mocks',
  [IRC, FLX, ICX, HOLD, CONV, NET], 'balances are debited only from the message sender or by the token owner')
p('C46', 'Markets do not interfere',
  'Opening, using, reconfiguring or pausing a market leaves every other market that shares its network, registry and '
  'connector tokens alone: all its later quotes, conversions, events and administrative operations come out the same.',
  ['inputs', 'histories'], 'another market active at three points of a story with arbitrary weights and fees',
  'the unit tests know one converter', [NET, CONV, FLX, REG], 'all state is kept per contract')
p('C47', 'Splitting an order never pays more, and paying more never yields less',
  'Without fees, two conversions one after the other in the same direction return together no more than one conversion of '
  'their sum, and the first of them no more than that: exactly so where pricing is exact (weights of 100 %, equal weights), '
  'and up to 2^-80 of the pool, rounded to whole units, otherwise.',
  ['inputs', 'histories'], 'any pool, weights and two amounts', 'tests price single orders', [FORM, CONV],
  'rounding down at every step; relative precision of the power function')


p('C48', 'What a payee does while being paid counts the same as done afterwards',
  'A beneficiary that is a contract gets control when it is paid. Whatever it does with the tokens it holds then (convert along any '
  'route, for itself or others, move, destroy or withdraw tokens) has exactly the effect it would have right after the first '
  'conversion: same returns, fees, balances, supplies, virtual balances and later quotes.',
  ['inputs', 'schedules'], 'every point of re-entry through the payment, any weights and fee',
  'tests call mocked receivers', [NET, CONV, IRC, ICX, FLX], 'all bookkeeping is finished before tokens or ICX leave')
p('C49', 'Nothing gets stuck',
  'After any call by any account, holders can still withdraw their ICX, move their tokens and destroy their flexible tokens; the owner '
  'of the network can return stray tokens; and the owner of a converter can take token ownership and the whole reserve back, '
  'set up and activate the market again, and trading then works as quoted.',
  ['inputs', 'histories'], 'every entry point of every contract, any caller and arguments, before the recovery',
  'tests never run administrative sequences', [CONV, FLX, ICX, NET, REG, CTL if 'CTL' in globals() else OWN], 'the privileged operations of owners are never blocked by state')
def main():
    na = {x['property'] for x in NOT_APPLICABLE}
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for k in sorted(P):
            f.write(json.dumps(P[k]) + '\n')
    checks = []
    for k in sorted(P):
        if k in na:
            continue
        checks.append({'property': k, 'quick_cmd': 'python3-vt run.py check %s quick' % k,
                       'thorough_cmd': 'python3-vt run.py check %s thorough' % k,
                       'evidence_file': 'evidence/%s.json' % k, 'technique': TECH, 'level': 'model_checking',
                       'level_note': NOTE + (UF if k in UFP else '') + EXTRA_NOTE.get(k, '') + '.'})
    doc = {'version': 1, 'setup_cmd': 'python3-vt run.py setup', 'checks': checks, 'not_applicable': NOT_APPLICABLE,
           'notes': 'No hooks in /repo. Repairs and findings: known-findings.txt. Regenerate this file with tools/spec.py.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')
    import jsonschema
    jsonschema.validate(doc, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for k in P:
        jsonschema.validate(P[k], s)
        n = P[k]['statement'].replace('i.e.', '').count('. ') + 1
        if n > 3:
            print(k, 'statement has', n, 'sentences')


main()
