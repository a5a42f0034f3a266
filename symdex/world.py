"""The ICON platform around the contracts.

Everything a contract can observe of the platform is the real iconservice 1.1.2 code (decorators,
IconScoreBase, InternalCall, IconScoreContext, InterfaceScore, IcxEngine, Account, VarDB/DictDB/ArrayDB);
only the lowest layer is replaced: the key-value store below the containers, the ICX account storage, and
the directory of deployed scores.  In the concrete world that layer is an in-memory byte store under the real
ContextDatabase; in the symbolic world it is a store of symbolic values.
"""
import hashlib

from . import boot
boot.setup_path()

import iconservice  # noqa: E402
from iconservice.base.address import Address, AddressPrefix, ZERO_SCORE_ADDRESS  # noqa: E402
from iconservice.base.block import Block  # noqa: E402
from iconservice.base.exception import (ContainerDBException, DatabaseException,  # noqa: E402
                                        IconServiceBaseException, InvalidParamsException)
from iconservice.base.message import Message  # noqa: E402
from iconservice.base.transaction import Transaction  # noqa: E402
from iconservice.database.batch import BlockBatch, TransactionBatch  # noqa: E402
from iconservice.database import db as icon_db  # noqa: E402
from iconservice.icon_constant import IconScoreContextType, IconScoreFuncType  # noqa: E402
from iconservice.iconscore import icon_container_db as icd  # noqa: E402
from iconservice.iconscore.icon_score_context import ContextContainer, IconScoreContext  # noqa: E402
from iconservice.iconscore.icon_score_event_log import EventLog, EventLogEmitter  # noqa: E402
from iconservice.iconscore.internal_call import InternalCall  # noqa: E402
from iconservice.icx.icx_account import Account, AccountType  # noqa: E402
from iconservice.icx.icx_engine import IcxEngine  # noqa: E402

try:
    from iconcommons.logger import Logger
    for _n in ('debug', 'info', 'warning', 'error'):
        setattr(Logger, _n, staticmethod(lambda *a, **k: None))
except ImportError:
    pass


def gen_address(prefix, tag):
    return Address(prefix, hashlib.sha3_256(tag.encode()).digest()[-20:])


class NullStep:
    def apply_step(self, *a, **k):
        return 0

    def __bool__(self):
        return True


class Result:
    def __init__(self, ok, ret=None, error=None, events=(), crash=False):
        self.ok = ok
        self.ret = ret
        self.error = error
        self.events = list(events)
        self.crash = crash

    def named(self, name, score=None):
        """Events with the given name; each as (score_address, [all args])"""
        out = []
        for e in self.events:
            if e.indexed[0].split('(')[0] == name and (score is None or e.score_address is score
                                                       or e.score_address == score):
                out.append(list(e.indexed[1:]) + list(e.data))
        return out


class AnyBlock(Block):
    """The block a transaction is in: an arbitrary one not before the previous transaction's, decided when looked at."""

    def __init__(self, world):
        super().__init__(None, b'\x00' * 32, None, None)
        self._world = world

    @property
    def height(self):
        if self._height is None:
            self._height = self._world.env.clock('block_height')
        return self._height

    @property
    def timestamp(self):
        if self._timestamp is None:
            self._timestamp = self._world.env.clock('block_timestamp')
        return self._timestamp


class AnyTransaction(Transaction):
    """The transaction a call belongs to.  If the caller is a contract, the transaction was sent by some account."""

    def __init__(self, world, sender):
        super().__init__(b'\x01' * 32, 0, None, None, 0)
        self._world, self._sender = world, sender

    @property
    def origin(self):
        if self._origin is None:
            self._origin = self._world.env.address('tx_origin', 'eoa') if self._sender.is_contract else self._sender
        return self._origin

    @property
    def timestamp(self):
        if self._timestamp is None:
            self._timestamp = self._world.env.int('tx_timestamp', lo=1)
        return self._timestamp


class Ctx(IconScoreContext):
    def __init__(self, world, ctype, msg):
        super().__init__(ctype, IconScoreFuncType.WRITABLE, block=AnyBlock(world),
                         tx=None if ctype == IconScoreContextType.QUERY else AnyTransaction(world, msg.sender), msg=msg,
                         block_batch=BlockBatch(), tx_batch=world.new_batch())
        self.world = world
        self.event_logs = []
        self.traces = []
        self.step_counter = NullStep()

    def get_icon_score(self, address):
        return self.world.find_score(address)

    def validate_score_blacklist(self, address):
        if not address.is_contract:
            raise InvalidParamsException('Invalid SCORE address')

    def get_owner(self, context, address):
        return self.world.owner_of(address)

    def is_score_active(self, context, address):
        return True


class BaseWorld:
    """Common to both worlds: deploying, transactions, queries."""

    def __init__(self, env):
        self.env = env
        self.scores = []      # (address, instance)
        self.owners = {}
        self.icx_engine = IcxEngine()
        InternalCall.icx_engine = self.icx_engine
        self.accounts = {}
        self.classes = {}     # what to deploy instead of a class
        self.known = [ZERO_SCORE_ADDRESS]

    # accounts and contract addresses are fixed, concrete
    def account(self, name):
        a = self.accounts.get(name)
        if a is None:
            a = self.accounts[name] = gen_address(AddressPrefix.EOA, 'account:' + name)
            self.register(a)
        return a

    def register(self, a):
        self.known.append(a)

    def contract_address(self, name):
        a = gen_address(AddressPrefix.CONTRACT, 'contract:' + name)
        self.register(a)
        return a

    def owner_of(self, address):
        for a, o in self.owners.items():
            if a is address or a == address:
                return o
        return None

    def _invoke(self, sender, value, body, to):
        msg = Message(sender, value)
        ctx = Ctx(self, IconScoreContextType.INVOKE, msg)
        ContextContainer._push_context(ctx)
        self.begin(ctx)
        try:
            ret = body(ctx)
            self.commit(ctx)
            return Result(True, ret, None, ctx.event_logs)
        except self.env.signals:
            self.rollback(ctx)
            raise
        except BaseException as e:
            self.rollback(ctx)
            if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
                raise
            return Result(False, None, e, (), not isinstance(e, IconServiceBaseException))
        finally:
            ContextContainer._pop_context()

    def deploy(self, name, cls, owner, params=None):
        """Deploys a contract class; returns (address, Result)."""
        address = self.contract_address(name)
        self.owners[address] = owner
        cls = self.classes.get(cls, cls)

        def body(ctx):
            score = cls(self.make_db(address))
            self.scores.append((address, score))
            ctx.current_address = address
            score.on_install(**(params or {}))
            return None
        r = self._invoke(owner, 0, body, address)
        if not r.ok:
            self.scores = [s for s in self.scores if s[0] is not address]
        return address, r

    def reload(self, address):
        """The contract is loaded again from storage (node restart, or new code on an upgrade)."""
        i = [k for k, (a, s) in enumerate(self.scores) if a is address][0]
        cls = type(self.scores[i][1])
        ContextContainer._push_context(Ctx(self, IconScoreContextType.INVOKE, Message(self.account('deployer'), 0)))
        try:
            score = cls(self.make_db(address))
        finally:
            ContextContainer._pop_context()
        self.scores[i] = (address, score)
        return score

    def update(self, address, owner):
        score = self.reload(address)

        def body(ctx):
            ctx.current_address = address
            score.on_update()
        return self._invoke(owner, 0, body, address)

    def place(self, name, cls, *args):
        """Installs a harness-side contract (a real IconScoreBase subclass)."""
        address = self.contract_address(name)
        self.owners[address] = self.account('deployer')
        msg = Message(self.account('deployer'), 0)
        ctx = Ctx(self, IconScoreContextType.INVOKE, msg)
        ContextContainer._push_context(ctx)
        try:
            score = cls(self.make_db(address))
        finally:
            ContextContainer._pop_context()
        score.init(self, *args)
        self.scores.append((address, score))
        return address

    def tx(self, sender, to, method=None, params=None, value=0):
        def body(ctx):
            # value transfer of the transaction itself
            self.icx_engine.transfer(ctx, sender, to, value)
            if method is None and not bool(to.is_contract):
                return None
            score = self.find_score(to)
            if score is None:
                raise InvalidParamsException('SCORE not found')
            if method is None:
                getattr(score, '_IconScoreBase__fallback_call')()
                return None
            ro = getattr(score, '_IconScoreBase__is_func_readonly')(method)
            ctx.func_type = IconScoreFuncType.READONLY if ro else IconScoreFuncType.WRITABLE
            return getattr(score, '_IconScoreBase__external_call')(func_name=method, arg_params=[],
                                                                   kw_params=dict(params or {}))
        return self._invoke(sender, value, body, to)

    def query(self, to, method, params=None, sender=None):
        msg = Message(sender, 0)
        ctx = Ctx(self, IconScoreContextType.QUERY, msg)
        ContextContainer._push_context(ctx)
        mark = self.mark()
        try:
            score = self.find_score(to)
            ctx.func_type = IconScoreFuncType.READONLY \
                if getattr(score, '_IconScoreBase__is_func_readonly')(method) else IconScoreFuncType.WRITABLE
            ret = getattr(score, '_IconScoreBase__external_call')(func_name=method, arg_params=[],
                                                                  kw_params=dict(params or {}))
            return Result(True, ret, None, ctx.event_logs)
        except self.env.signals:
            raise
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
                raise
            return Result(False, None, e, (), not isinstance(e, IconServiceBaseException))
        finally:
            self.unmark(mark)
            ContextContainer._pop_context()

    def icx_balance(self, address):
        ctx = Ctx(self, IconScoreContextType.QUERY, Message(None, 0))
        return self.icx_engine.get_balance(ctx, address)

    def fund_icx(self, address, amount):
        """Gives ICX to an account outside any transaction (genesis)."""
        raise NotImplementedError

    def find_score(self, address):
        raise NotImplementedError


# ----------------------------------------------------------------------------------------------
# concrete world: real containers on an in-memory key-value store

class MemKV:
    def __init__(self):
        self.d = {}

    def get(self, k):
        return self.d.get(k)

    def put(self, k, v):
        self.d[k] = v

    def delete(self, k):
        self.d.pop(k, None)

    def close(self):
        pass

    def write_batch(self, states):
        for k, v in states.items():
            if v:
                self.d[k] = v
            else:
                self.d.pop(k, None)


class ConcreteWorld(BaseWorld):
    def __init__(self, env):
        super().__init__(env)
        self.kv = MemKV()
        self.cdb = icon_db.ContextDatabase(self.kv)
        from iconservice.icx.icx_storage import IcxStorage
        self.icx_kv = MemKV()
        self.icx_engine._storage = IcxStorage(icon_db.ContextDatabase(self.kv))

    def new_batch(self):
        return TransactionBatch(b'\x01' * 32)

    def make_db(self, address):
        return icon_db.IconScoreDatabase(address, self.cdb)

    def begin(self, ctx):
        pass

    def commit(self, ctx):
        self.kv.write_batch(dict(ctx.tx_batch.items()))

    def rollback(self, ctx):
        pass

    def mark(self):
        return dict(self.kv.d)

    def unmark(self, m):
        self.env.query_changed_state(m != self.kv.d)

    def state_digest(self):
        return dict(self.kv.d)

    def fund_icx(self, address, amount):
        st = self.icx_engine._storage
        acc = Account(AccountType.GENERAL, address, icx=amount)
        st.put_account(None, address, acc)

    def find_score(self, address):
        for a, s in self.scores:
            if a == address:
                return s
        return self.env.unknown_score(address)


# ----------------------------------------------------------------------------------------------
# symbolic world

class SymWorldMixin:
    pass


def make_symbolic():
    """Installs the symbolic layer (patches iconservice in this process) and returns the SymWorld class."""
    import json
    from . import core as C

    # --- addresses -------------------------------------------------------------------------
    concrete_ids = {}

    def concrete_id(a):
        key = (Address.prefix.fget(a), a._Address__body)
        i = concrete_ids.get(key)
        if i is None:
            if Address_is_zero(key):
                i = 0
            else:
                # an account and a contract with the same 20 bytes have opposite ids, and only those
                twin = [v for k, v in concrete_ids.items() if k[1] == key[1] and v]
                i = abs(twin[0]) if twin else 1 + max(abs(v) for v in concrete_ids.values())
                if key[0] != AddressPrefix.CONTRACT:
                    i = -i
            concrete_ids[key] = i
        return i

    zkey = (ZERO_SCORE_ADDRESS.prefix, ZERO_SCORE_ADDRESS.body)

    def Address_is_zero(key):
        return key == zkey

    concrete_id(ZERO_SCORE_ADDRESS)

    class SymAddress(Address):
        def __init__(self, p):
            self._p = p

        @property
        def is_contract(self):
            return C._cmp(self._p.scale(-1), '<=')

        @property
        def prefix(self):
            return AddressPrefix.CONTRACT if bool(self.is_contract) else AddressPrefix.EOA

        @property
        def body(self):
            return body_of(self)

        def __eq__(self, other):
            return addr_eq(self, other)

        def __ne__(self, other):
            return C.s_not(addr_eq(self, other))

        def __hash__(self):
            return 0

        def __str__(self):
            path = C.CURRENT
            if path is None:
                return '<symaddr>'
            toks = path.__dict__.setdefault('addr_tokens', {})
            for s, a in toks.items():
                if a._p == self._p:
                    return s
            pre = 'cx' if bool(self.is_contract) else 'hx'
            s = pre + 'f00d' + '%036x' % (len(toks) + 1)
            toks[s] = self
            return s
        __repr__ = __str__

        def __format__(self, spec):
            return str(self)

        def to_bytes(self):
            return bytes_of(self)

        def __copy__(self):
            return self

        def __deepcopy__(self, memo):
            return self

    def aid(a):
        if isinstance(a, SymAddress):
            return a._p
        return C.Poly.const(concrete_id(a))

    def addr_eq(a, b):
        if a is b:
            return True
        if b is None or not isinstance(b, Address) or not isinstance(a, Address):
            return False
        return C._cmp(aid(a).add(aid(b), -1), '==')

    def body_of(a):
        path = C.CURRENT
        raw = None if isinstance(a, SymAddress) else a._Address__body
        if path is None:
            return raw
        reps = path.__dict__.setdefault('body_reps', [])
        p = aid(a)
        for q, b in reps:
            if q == p or q == p.scale(-1):
                return b
        for q, b in reps:
            if q.is_const() and p.is_const():
                continue
            if bool(C._cmp(p.add(q, -1), '==')) or bool(C._cmp(p.add(q), '==')):
                return b
        if raw is None:
            raw = (0xf00d << 140 | 1 << 100 | len(reps)).to_bytes(20, 'big')
        reps.append((p, raw))
        return raw

    def real_to_bytes(a):
        return (b'' if Address.prefix.fget(a) == AddressPrefix.EOA else b'\x01') + a._Address__body

    def bytes_of(a):
        path = C.CURRENT
        raw = None if isinstance(a, SymAddress) else real_to_bytes(a)
        if path is None:
            return raw
        reps = path.__dict__.setdefault('byte_reps', [])
        p = aid(a)
        for q, b in reps:
            if q == p:
                return b
        for q, b in reps:
            if q.is_const() and p.is_const():
                continue
            if bool(C._cmp(p.add(q, -1), '==')):
                return b
        if raw is None:
            n = 0xf00d << 140 | len(reps)
            raw = n.to_bytes(20, 'big')
            if bool(a.is_contract):
                raw = b'\x01' + raw
        reps.append((p, raw))
        return raw

    Address.to_bytes = bytes_of
    Address.body = property(body_of)
    Address.__str__ = lambda a: str(Address.prefix.fget(a)) + a._Address__body.hex()
    Address.__repr__ = Address.__str__
    Address.__hash__ = lambda self: 0

    def concrete_eq(self, other):
        if isinstance(other, SymAddress):
            return addr_eq(self, other)
        return isinstance(other, Address) and concrete_id(self) == concrete_id(other)
    Address.__eq__ = concrete_eq
    Address.__ne__ = lambda self, other: C.s_not(concrete_eq(self, other))

    real_from_string = Address.from_string

    def from_string(s):
        path = C.CURRENT
        if path is not None and isinstance(s, str):
            a = path.__dict__.get('addr_tokens', {}).get(s)
            if a is not None:
                return a
        return real_from_string(s)
    Address.from_string = staticmethod(from_string)

    real_from_bytes = Address.from_bytes

    def from_bytes(b):
        path = C.CURRENT
        if path is not None:
            for q, rb in path.__dict__.get('byte_reps', []):
                if rb == b:
                    for i, k in concrete_ids.items():
                        if q.is_const() and k == q.cval():
                            return Address(*i)
                    return SymAddress(q)
        return real_from_bytes(b)
    Address.from_bytes = staticmethod(from_bytes)

    # --- strings that only get compared -------------------------------------------------------
    str_ids = {}

    class SymStr(str):
        """A string input of which the code only uses equality (and hashing, storing, formatting)."""
        def __new__(cls, p):
            o = str.__new__(cls, '<symstr>')
            o._p = p
            return o

        def __eq__(self, o):
            if isinstance(o, SymStr):
                return C._cmp(self._p.add(o._p, -1), '==')
            if isinstance(o, str):
                return C._cmp(self._p.add(C.Poly.const(str_id(o)), -1), '==')
            return False

        def __ne__(self, o):
            return C.s_not(self.__eq__(o))

        def __hash__(self):
            return hash(text_of(self))

        def __contains__(self, o):
            return str(o) in text_of(self)

        def __iter__(self):
            return iter(text_of(self))

        def __len__(self):
            return len(text_of(self))

        def __format__(self, spec):
            return '<symstr>'

    def looks_inside(op):
        def f(self, *a, **k):
            return getattr(text_of(self), op)(*a, **k)
        return f

    for op in ('__getitem__', '__add__', '__mod__', '__lt__', '__le__', '__gt__', '__ge__', '__mul__', 'encode', 'split', 'strip',
               'lstrip', 'rstrip', 'lower', 'upper', 'startswith', 'endswith', 'join', 'replace', 'find', 'count', 'title',
               'casefold', 'capitalize', 'isalpha', 'isdigit', 'isalnum', 'isidentifier', 'isprintable', 'isspace', 'index',
               'partition', 'rpartition', 'rsplit', 'swapcase', 'translate', 'removeprefix', 'removesuffix', 'zfill'):
        setattr(SymStr, op, looks_inside(op))

    def text_of(s):
        """Code that looks inside a string: fork over the strings of the scenario and variations of them."""
        path = C.CURRENT
        known = path.__dict__.setdefault('texts', {})
        if s._p in known:
            return known[s._p]
        pool = list(path.__dict__.get('str_pool', ()))
        menu = list(pool)
        for t in pool:
            menu += [t + ' ', ' ' + t, t.lower(), t.upper(), t + 'X', t[:-1], t + '\n', t[:1].lower() + t[1:]]
        for t in dict.fromkeys(menu + ['', 'x', 'another name', 'x' * 300, '\u00e9']):
            if path.branch(C.bexpr(C._cmp(s._p.add(C.Poly.const(str_id(t)), -1), '=='))):
                known[s._p] = t
                return t
        raise C.PathPruned()

    def str_id(s):
        if s not in str_ids:
            str_ids[s] = len(str_ids)
        return str_ids[s]

    # --- containers --------------------------------------------------------------------------
    CU = icd.ContainerUtil
    real_encode_key = CU.__dict__['encode_key'].__func__
    real_encode_value = CU.__dict__['encode_value'].__func__
    real_decode = CU.__dict__['decode_object'].__func__

    class Key:
        __slots__ = ('kind', 'p')

        def __init__(self, kind, p):
            self.kind, self.p = kind, p

    def encode_key(key):
        if key is None:
            raise ContainerDBException('key is None')
        if isinstance(key, Address):
            return Key('a', aid(key))
        if isinstance(key, C.SymIntBase):
            return Key('i', key._p)
        if isinstance(key, bool) or isinstance(key, C.SymBoolBase):
            return Key('i', C.to_poly(key))
        if isinstance(key, int):
            return Key('i', C.Poly.const(int(key)))
        if isinstance(key, SymStr):
            return Key('s', key._p)
        if isinstance(key, str):
            return Key('s', C.Poly.const(str_id(key)))
        if isinstance(key, bytes):
            return Key('b', key)
        raise ContainerDBException("can't encode key")

    def encode_value(value):
        if isinstance(value, (int, str, Address, bool, bytes, C.SymIntBase, C.SymBoolBase)):
            return Box(value)
        raise ContainerDBException(f"can't encode value: {type(value)}")

    class Box:
        __slots__ = ('v',)

        def __init__(self, v):
            self.v = v

        def __len__(self):
            return 1

    def key_eq(a, b):
        if a.kind != b.kind:
            return False
        if a.kind == 'b':
            return a.p == b.p
        return C._cmp(a.p.add(b.p, -1), '==')

    class Lookup:
        """The outcome of reading one key: candidates newest first, (condition, value or None=absent)."""
        __slots__ = ('cands',)

        def __init__(self, cands):
            self.cands = cands

        def present(self):
            return C.s_or(*[C.s_and(c, C.s_not(C.s_or(*[d for d, _ in self.cands[:i]])))
                            for i, (c, v) in enumerate(self.cands) if v is not None])

    def as_int(v):
        if isinstance(v, C.SymIntBase) or type(v) is int:
            return v
        if isinstance(v, (bool, C.SymBoolBase)):
            return C.mk(C.to_poly(v))
        if isinstance(v, int):
            return int(v)
        raise C.Unsupported('stored value decoded as int')

    def as_bool(v):
        if v is True or v is False or isinstance(v, C.SymBoolBase):
            return v
        if isinstance(v, C.SymIntBase):
            return v != 0
        if isinstance(v, int):
            return bool(v)
        raise C.Unsupported('stored value decoded as bool')

    def decode_object(value, value_type):
        if value is None:
            return icd.get_default_value(value_type)
        if isinstance(value, (bytes, bytearray)):
            return real_decode(value, value_type)
        if isinstance(value, Box):
            value = Lookup([(True, value)])
        if value_type is int:
            r = 0
            for c, b in reversed(value.cands):
                r = C.sym_ite(c, as_int(b.v) if b is not None else 0, r)
            return r
        if value_type is bool:
            r = False
            for c, b in reversed(value.cands):
                v = as_bool(b.v) if b is not None else False
                if c is True:
                    r = v
                elif c is False:
                    pass
                else:
                    import z3
                    r = C.mkb(z3.simplify(z3.If(c._e, C.bexpr(v), C.bexpr(r))))
            return r
        for c, b in value.cands:
            if bool(c):
                if b is None:
                    return icd.get_default_value(value_type)
                v = b.v
                if value_type is not None and not isinstance(v, value_type):
                    raise C.Unsupported('stored value of another type')
                return v
        return icd.get_default_value(value_type)

    CU.encode_key = staticmethod(encode_key)
    CU.encode_value = staticmethod(encode_value)
    CU.decode_object = staticmethod(decode_object)

    def dict_contains(self, key):
        v = self._db.get(CU.encode_key(key))
        if v is None:
            return False
        return bool(v.present()) if isinstance(v, Lookup) else True
    icd.DictDB.__contains__ = dict_contains

    def create_db_prefix(cls, var_key):
        if var_key is None:
            raise ContainerDBException('key is None')
        cid = {icd.ArrayDB: b'\x00', icd.DictDB: b'\x01'}.get(cls)
        if cid is None:
            raise ContainerDBException(f'Unsupported container class: {cls}')
        if isinstance(var_key, (C.SymIntBase, SymStr)):
            raise C.Unsupported('symbolic container name')
        if isinstance(var_key, Address):
            enc = bytes_of(var_key)
        elif isinstance(var_key, str):
            enc = var_key.encode()
        elif isinstance(var_key, bytes):
            enc = var_key
        elif isinstance(var_key, int):
            enc = icd.int_to_bytes(var_key)
        else:
            raise ContainerDBException("can't encode key")
        return b'|'.join([cid, enc])
    CU.create_db_prefix = staticmethod(create_db_prefix)
    # ArrayDB keeps a pre-encoded constant key
    icd.ArrayDB._ArrayDB__SIZE_BYTE_KEY = encode_key('size')

    class SymDatabase:
        def __init__(self, world, address, prefix=None):
            self._world, self.address, self._prefix = world, address, prefix

        @property
        def _ctx(self):
            return ContextContainer._get_context()

        def set_observer(self, o):
            pass

        def close(self):
            pass

        def get_sub_db(self, prefix):
            if prefix is None:
                raise DatabaseException('prefix is None')
            if isinstance(prefix, Key):
                prefix = repr_key(prefix)
            if self._prefix is not None:
                prefix = b'|'.join([self._prefix, prefix])
            return SymDatabase(self._world, self.address, prefix)

        def _slot(self):
            return (concrete_id(self.address), self._prefix)

        def get(self, key):
            if not isinstance(key, Key):
                key = Key('b', key)
            return self._world.read(self._slot(), key)

        def put(self, key, value):
            if not isinstance(key, Key):
                key = Key('b', key)
            if not icon_db._is_db_writable_on_context(self._ctx):
                raise DatabaseException('put is not allowed')
            if isinstance(value, bytes):
                value = Box(value)
            self._world.write(self._slot(), key, value)

        def delete(self, key):
            if not isinstance(key, Key):
                key = Key('b', key)
            if not icon_db._is_db_writable_on_context(self._ctx):
                raise DatabaseException('delete is not allowed')
            self._world.write(self._slot(), key, None)

    def repr_key(k):
        if k.kind == 'b':
            return k.p
        if k.kind == 's' and k.p.is_const():
            for s, i in str_ids.items():
                if i == k.p.cval():
                    return s.encode()
        raise C.Unsupported('symbolic sub-database prefix')

    class SymBatch:
        """Call-level snapshots with the interface of TransactionBatch."""
        def __init__(self, world):
            self.world = world
            self.stack = []

        def enter_call(self):
            self.stack.append(dict(self.world.store))

        def revert_call(self):
            self.world.store = dict(self.stack[-1])

        def leave_call(self):
            self.stack.pop()

    class SymIcxStorage:
        def __init__(self, world):
            self.world = world

        def get_account(self, context, address):
            v = decode_object(self.world.read('icx', Key('a', aid(address))), int)
            return Account(AccountType.GENERAL, address, icx=v)

        def put_account(self, context, address, account):
            self.world.write('icx', Key('a', aid(address)), Box(account.icx))

    # --- event log: no byte accounting --------------------------------------------------------
    from iconservice.base.exception import EventLogException

    def emit_event_log(context, score_address, event_signature, arguments, indexed_args_count):
        if context.readonly:
            raise EventLogException('The event log can not be recorded on readonly context')
        if indexed_args_count > len(arguments):
            raise EventLogException('declared indexed_args_count mismatch')
        context.event_logs.append(EventLog(score_address, [event_signature] + list(arguments[:indexed_args_count]),
                                           list(arguments[indexed_args_count:])))
    EventLogEmitter.emit_event_log = staticmethod(emit_event_log)

    # --- json carrying symbolic integers ------------------------------------------------------
    def tok(o):
        if isinstance(o, C.SymIntBase):
            return o.token()
        if isinstance(o, C.SymBoolBase):
            return bool(o)
        if isinstance(o, Address) or isinstance(o, SymStr):
            raise TypeError('not JSON serializable')
        if isinstance(o, dict):
            return {k: tok(v) for k, v in o.items()}
        if isinstance(o, (list, tuple)):
            return [tok(v) for v in o]
        return o

    def untok(o):
        if isinstance(o, dict):
            return {k: untok(v) for k, v in o.items()}
        if isinstance(o, list):
            return [untok(v) for v in o]
        return C.untoken(o)

    def sym_json_dumps(obj, **kw):
        return json.dumps(tok(obj), **kw)

    def sym_json_loads(src, **kw):
        return untok(json.loads(src, **kw))
    iconservice.json_dumps = sym_json_dumps
    iconservice.json_loads = sym_json_loads

    class SymWorld(BaseWorld):
        Sym = SymAddress
        Str = SymStr

        def __init__(self, env):
            self.store = {}
            super().__init__(env)
            self.icx_engine._storage = SymIcxStorage(self)

        def register(self, a):
            super().register(a)
            concrete_id(a)

        # storage
        def read(self, slot, key):
            m = self.store.get(slot)
            if not m:
                return None
            cands = []
            for k, v in m:           # newest first
                c = key_eq(key, k)
                if c is False:
                    continue
                if c is not True:
                    d = C.CURRENT.decided.get(c._e.get_id())
                    if d is False:
                        continue
                    if d is True:
                        c = True
                cands.append((c, v))
                if c is True:
                    break
            if not cands:
                return None
            if cands[0][0] is True:
                return cands[0][1]
            return Lookup(cands)

        def write(self, slot, key, value):
            m = self.store.get(slot, ())
            out = [(key, value)]
            for k, v in m:
                if k.kind == key.kind and k.p == key.p:
                    continue
                out.append((k, v))
            self.store[slot] = tuple(out)

        def new_batch(self):
            return SymBatch(self)

        def make_db(self, address):
            return SymDatabase(self, address)

        def begin(self, ctx):
            ctx._saved = dict(self.store)

        def commit(self, ctx):
            pass

        def rollback(self, ctx):
            self.store = ctx._saved

        def mark(self):
            return dict(self.store)

        def unmark(self, m):
            self.env.query_changed_state(m != self.store)
            self.store = m

        def fund_icx(self, address, amount):
            self.write('icx', Key('a', aid(address)), Box(amount))

        def find_score(self, address):
            if isinstance(address, SymAddress):
                for a, s in self.scores:
                    if bool(addr_eq(address, a)):
                        return s
                return self.env.unknown_score(address)
            for a, s in self.scores:
                if a is address or concrete_id(a) == concrete_id(address):
                    return s
            return self.env.unknown_score(address)

    SymWorld.aid = staticmethod(aid)
    SymWorld.concrete_ids = concrete_ids
    SymWorld.str_ids = str_ids
    SymWorld.str_id = staticmethod(str_id)
    return SymWorld
