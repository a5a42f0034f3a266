"""A small in-memory ICON ledger running the real contracts of the current directory (cwd = /repo). Demo helper."""
import collections
import collections.abc
import hashlib
import os
import sys

sys.dont_write_bytecode = True
sys.pycache_prefix = '/tmp/mini-nopyc-%d' % os.getpid()
if not hasattr(collections, 'Iterator'):
    collections.Iterator = collections.abc.Iterator
sys.path.insert(0, os.getcwd())
import iconservice  # noqa
from iconservice import *  # noqa
from iconservice.base.address import Address, AddressPrefix, ZERO_SCORE_ADDRESS
from iconservice.base.block import Block
from iconservice.base.exception import InvalidParamsException
from iconservice.base.message import Message
from iconservice.base.transaction import Transaction
from iconservice.database.batch import BlockBatch, TransactionBatch
from iconservice.database import db as icon_db
from iconservice.icon_constant import IconScoreContextType, IconScoreFuncType
from iconservice.iconscore.icon_score_context import ContextContainer, IconScoreContext
from iconservice.iconscore.internal_call import InternalCall
from iconservice.icx.icx_account import Account, AccountType
from iconservice.icx.icx_engine import IcxEngine
from iconservice.icx.icx_storage import IcxStorage
try:
    from iconcommons.logger import Logger
    for _n in ('debug', 'info', 'warning', 'error'):
        setattr(Logger, _n, staticmethod(lambda *a, **k: None))
except ImportError:
    pass
from contracts.converter.converter import Converter
from contracts.flexible_token.flexible_token import FlexibleToken
from contracts.icx_token.icx_token import IcxToken
from contracts.irc_token.irc_token import IRCToken
from contracts.network.network import Network
from contracts.score_registry.score_registry import ScoreRegistry

ZERO = ZERO_SCORE_ADDRESS
PPM = 1000000


def addr(kind, tag):
    return Address(AddressPrefix.CONTRACT if kind == 'c' else AddressPrefix.EOA,
                   hashlib.sha3_256((kind + tag).encode()).digest()[-20:])


class KV:
    def __init__(self):
        self.d = {}

    def get(self, k):
        return self.d.get(k)

    def put(self, k, v):
        self.d[k] = v

    def delete(self, k):
        self.d.pop(k, None)

    def close(self):
        pass


class Step:
    def apply_step(self, *a, **k):
        return 0

    def __bool__(self):
        return True


class Ctx(IconScoreContext):
    def __init__(self, w, ctype, msg):
        super().__init__(ctype, IconScoreFuncType.WRITABLE, block=Block(1, b'\0' * 32, 1, None),
                         tx=Transaction(b'\1' * 32, 0, msg.sender, 1, 0), msg=msg, block_batch=BlockBatch(),
                         tx_batch=TransactionBatch(b'\1' * 32))
        self.w, self.event_logs, self.traces, self.step_counter = w, [], [], Step()

    def get_icon_score(self, a):
        return self.w.scores.get(a)

    def validate_score_blacklist(self, a):
        if not a.is_contract:
            raise InvalidParamsException('Invalid SCORE address')

    def get_owner(self, context, a):
        return None

    def is_score_active(self, context, a):
        return True


class Failed(Exception):
    pass


class World:
    def __init__(self):
        self.kv = KV()
        self.cdb = icon_db.ContextDatabase(self.kv)
        self.icx_engine = InternalCall.icx_engine = IcxEngine()
        self.icx_engine._storage = IcxStorage(self.cdb)
        self.scores, self.events = {}, []

    def acc(self, name):
        return addr('h', name)

    def _run(self, sender, value, body):
        ctx = Ctx(self, IconScoreContextType.INVOKE, Message(sender, value))
        ContextContainer._push_context(ctx)
        try:
            ret = body(ctx)
            for k, v in dict(ctx.tx_batch.items()).items():
                self.kv.put(k, v) if v else self.kv.delete(k)
            self.events = [(e.score_address, e.indexed[0].split('(')[0], list(e.indexed[1:]) + list(e.data))
                           for e in ctx.event_logs]
            return ret
        except BaseException as e:
            if isinstance(e, (SystemExit, KeyboardInterrupt)):
                raise
            raise Failed('%s: %s' % (type(e).__name__, e))
        finally:
            ContextContainer._pop_context()

    def deploy(self, name, cls, owner, **params):
        a = addr('c', name)

        def body(ctx):
            s = cls(icon_db.IconScoreDatabase(a, self.cdb))
            self.scores[a] = s
            ctx.current_address = a
            s.on_install(**params)
        self._run(owner, 0, body)
        return a

    def reload(self, a, update_by=None):
        def body(ctx):
            s = self.scores[a] = type(self.scores[a])(icon_db.IconScoreDatabase(a, self.cdb))
            ctx.current_address = a
            if update_by:
                s.on_update()
        self._run(update_by, 0, body)

    def tx(self, sender, to, method=None, value=0, **params):
        def body(ctx):
            self.icx_engine.transfer(ctx, sender, to, value)
            if method is None and not to.is_contract:
                return None
            s = self.scores[to]
            if method is None:
                return s._IconScoreBase__fallback_call()
            ro = s._IconScoreBase__is_func_readonly(method)
            ctx.func_type = IconScoreFuncType.READONLY if ro else IconScoreFuncType.WRITABLE
            return s._IconScoreBase__external_call(func_name=method, arg_params=[], kw_params=params)
        return self._run(sender, value, body)

    def fails(self, *a, **k):
        """True if the transaction is refused."""
        try:
            self.tx(*a, **k)
            return False
        except Failed:
            return True

    def q(self, to, method, **params):
        ctx = Ctx(self, IconScoreContextType.QUERY, Message(None, 0))
        ContextContainer._push_context(ctx)
        try:
            s = self.scores[to]
            ro = s._IconScoreBase__is_func_readonly(method)
            ctx.func_type = IconScoreFuncType.READONLY if ro else IconScoreFuncType.WRITABLE
            return s._IconScoreBase__external_call(func_name=method, arg_params=[], kw_params=params)
        except BaseException as e:
            if isinstance(e, (SystemExit, KeyboardInterrupt)):
                raise
            raise Failed('%s: %s' % (type(e).__name__, e))
        finally:
            ContextContainer._pop_context()

    def named(self, name, score=None):
        return [v for a, n, v in self.events if n == name and (score is None or a == score)]

    def icx(self, a):
        return self.icx_engine.get_balance(Ctx(self, IconScoreContextType.QUERY, Message(None, 0)), a)

    def give_icx(self, a, amount):
        self.icx_engine._storage.put_account(None, a, Account(AccountType.GENERAL, a, icx=amount))

    def bal(self, t, who):
        return self.q(t, 'balanceOf', _owner=who)

    def token(self, name, owner, supply, cls=IRCToken):
        return self.deploy(name, cls, owner, _name='T', _symbol='T', _initialSupply=supply, _decimals=0)


def dumps(d):
    return iconservice.json_dumps(d).encode('utf-8')


class Market:
    """A flexible token F, its converter, connectors A (and B), registry, network."""

    def __init__(self, w, wa=500000, wb=None, ra=10 ** 6, rb=10 ** 6, supply=10 ** 6, fee=0, max_fee=PPM, virt=None,
                 active=True, n='', net=None, reg=None, A=None, B=None):
        self.w, self.o = w, w.acc('owner')
        o = self.o
        self.reg = reg or w.deploy('registry', ScoreRegistry, o)
        self.net = net or w.deploy('network', Network, o)
        w.tx(o, self.reg, 'registerAddress', _scoreName='Network', _scoreAddress=self.net)
        self.A = A or w.token('A' + n, o, 10 ** 15)
        self.F = w.token('F' + n, o, supply, FlexibleToken)
        self.at = w.deploy('converter' + n, Converter, o, _token=self.F, _registry=self.reg, _maxConversionFee=max_fee,
                           _connectorToken=self.A, _connectorWeight=wa)
        w.tx(o, self.A, 'transfer', _to=self.at, _value=ra)
        if wb:
            self.B = B or w.token('B' + n, o, 10 ** 15)
            w.tx(o, self.at, 'addConnector', _token=self.B, _weight=wb, _enableVirtualBalance=False)
            w.tx(o, self.B, 'transfer', _to=self.at, _value=rb)
        for t, v in (virt or {}).items():
            w.tx(o, self.at, 'updateConnector', _connectorToken=getattr(self, t), _weight=wa if t == 'A' else wb,
                 _enableVirtualBalance=True, _virtualBalance=v)
        if fee:
            w.tx(o, self.at, 'setConversionFee', _conversionFee=fee)
        if active:
            w.tx(o, self.F, 'transferOwnerShip', _newOwner=self.at)
            w.tx(o, self.at, 'acceptTokenOwnership')

    def path(self, *names):
        return ','.join(str(getattr(self, x) if isinstance(x, str) else x) for x in names)

    def convert(self, who, token, amount, path, minimum=1, ben=None):
        """Through the network."""
        d = {'path': path, 'minReturn': minimum}
        if ben is not None:
            d['for'] = str(ben)
        return self.w.tx(who, token, 'transfer', _to=self.net, _value=amount, _data=dumps(d))
