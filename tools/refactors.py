"""Behaviour-preserving rewrites of /repo, to confirm that the checks stay quiet on them.
Usage: refactors.py [NAME...]: copies /repo, rewrites, runs the stable tests' imports and every check on the copy."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

C = 'contracts/converter/converter.py'
N = 'contracts/network/network.py'
I = 'contracts/irc_token/irc_token.py'
F = 'contracts/flexible_token/flexible_token.py'
X = 'contracts/icx_token/icx_token.py'
M = 'contracts/formula/fixed_map_formula.py'
R = 'contracts/score_registry/score_registry.py'
O = 'contracts/utility/owned.py'

R_ALL = {
    'converter-fee-helper': [(C, """        final_ratio = (self._MAX_CONVERSION_FEE - self._conversion_fee.get())
        return _amount * final_ratio ** _magnitude // self._MAX_CONVERSION_FEE ** _magnitude
""", """        return self._net(_amount, _magnitude)[0]

    def _net(self, amount: int, magnitude: int) -> tuple:
        kept, whole = 1, 1
        for _ in range(magnitude):
            kept *= self._MAX_CONVERSION_FEE - self._conversion_fee.get()
            whole *= self._MAX_CONVERSION_FEE
        quotient, rest = divmod(amount * kept, whole)
        return int(quotient), rest
""")],
    'converter-price-helper': [(C, """        # dispatch price data update for the flexible token/connector
        self.PriceDataUpdate(connector_token,
                             flexible_token.totalSupply(),
                             self.getConnectorBalance(connector_token),
                             connector.weight.get())

        return return_amount

    def _sell(""", """        self._publish_price(connector_token)
        return return_amount

    def _publish_price(self, *tokens):
        supply = self.create_interface_score(self._token.get(), FlexibleToken).totalSupply()
        for token in tokens:
            self.PriceDataUpdate(token, supply, self.getConnectorBalance(token), self._connectors[token].weight.get())

    def _sell("""), (C, """        # dispatch price data update for the flexible token/connector
        self.PriceDataUpdate(connector_token,
                             flexible_token.totalSupply(),
                             self.getConnectorBalance(connector_token),
                             connector.weight.get())

        return return_amount

    def _convert_cross""", """        self._publish_price(connector_token)
        return return_amount

    def _convert_cross"""), (C, """        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)
        token_supply = flexible_token.totalSupply()
        self.PriceDataUpdate(from_token, token_supply, self.getConnectorBalance(from_token),
                             from_connector.weight.get())
        self.PriceDataUpdate(to_token, token_supply, self.getConnectorBalance(to_token),
                             to_connector.weight.get())
        return return_amount
""", """        self._publish_price(from_token, to_token)
        return return_amount
""")],
    'converter-dispatch': [(C, """        flexible_token = self._token.get()
        # conversion between the token and one of its connectors
        if to_token == flexible_token:
            return self._buy(trader, from_token, amount, min_return)
        elif from_token == flexible_token:
            return self._sell(trader, to_token, amount, min_return)

        # conversion between 2 connectors
        return self._convert_cross_connector(trader, from_token, to_token, amount, min_return)
""", """        own = self._token.get()
        kinds = {(False, True): lambda: self._buy(trader, from_token, amount, min_return),
                 (True, False): lambda: self._sell(trader, to_token, amount, min_return),
                 (False, False): lambda: self._convert_cross_connector(trader, from_token, to_token, amount, min_return)}
        return kinds[(from_token == own, to_token == own)]()
"""), (C, """        if connector.is_virtual_balance_enabled.get():
            connector.virtual_balance.set(connector.virtual_balance.get() + amount)

        flexible_token_address""", """        self._shift(connector, amount)

        flexible_token_address"""), (C, """        if connector.is_virtual_balance_enabled.get():
            connector.virtual_balance.set(
                safe_sub(connector.virtual_balance.get(), return_amount))
""", """        self._shift(connector, -return_amount)
"""), (C, """        if from_connector.is_virtual_balance_enabled.get():
            from_connector.virtual_balance.set(from_connector.virtual_balance.get() + amount)
""", """        self._shift(from_connector, amount)
"""), (C, """        if to_connector.is_virtual_balance_enabled.get():
            to_connector.virtual_balance.set(
                safe_sub(to_connector.virtual_balance.get(), return_amount))
""", """        self._shift(to_connector, -return_amount)
"""), (C, """    def _sell(self, trader""", """    def _shift(self, connector, delta: int):
        if not connector.is_virtual_balance_enabled.get():
            return
        new_balance = connector.virtual_balance.get() + delta
        require(new_balance >= 0 or delta >= 0, 'underflow')
        connector.virtual_balance.set(new_balance)

    def _sell(self, trader""")],
    'converter-add-connector': [(C, """        self._connectors[_token].virtual_balance.set(0)
        self._connectors[_token].weight.set(_weight)
        self._connectors[_token].is_virtual_balance_enabled.set(_enableVirtualBalance)
        self._connectors[_token].is_purchase_enabled.set(True)
        self._connectors[_token].is_set.set(True)
        self._connector_tokens.put(_token)

        self._total_connector_weight.set(self._total_connector_weight.get() + _weight)
""", """        total = sum([self._total_connector_weight.get(), _weight])
        self._total_connector_weight.set(total)
        self._connector_tokens.put(_token)
        c = self._connectors[_token]
        for field, value in ((c.is_set, True), (c.is_purchase_enabled, True), (c.virtual_balance, 0),
                             (c.is_virtual_balance_enabled, _enableVirtualBalance), (c.weight, _weight)):
            field.set(value)
"""), (C, """        if self._conversions_enabled.get() == _disable:
            enable = not _disable
            self._conversions_enabled.set(enable)
            self.ConversionsEnable(enable)
""", """        enable = not _disable
        if bool(self._conversions_enabled.get()) is not bool(enable):
            self._conversions_enabled.set(enable)
            self.ConversionsEnable(enable)
""")],
    'network-loop': [(N, """        data = dict()
        for i in range(1, len(path), 2):
            flexible_token_address = path[i]
            to_token_address = path[i+1]

            to_token""", """        last = path[-1]
        hops = list(zip(path[1::2], path[2::2]))
        while hops:
            flexible_token_address, to_token_address = hops.pop(0)
            data = {}

            to_token"""), (N, """            data["minReturn"] = min_return if i == len(path)-2 else 1
""", """            data["minReturn"] = 1 if hops else min_return
"""), (N, """            amount_after_converting = to_token.balanceOf(self.address)
            amount = amount_after_converting - amount_before_converting
""", """            amount = to_token.balanceOf(self.address) - amount_before_converting
"""), (N, """        path_set = {address for i, address in enumerate(path) if i % 2 == 1}
        require(len(path_set) == path_len // 2, "do not support circular path")
""", """        seen = []
        for address in path[1::2]:
            require(address not in seen, "do not support circular path")
            seen.append(address)
""")],
    'token-transfer': [(I, """        self._balances[_from] = self._balances[_from] - _value
        self._balances[_to] = self._balances[_to] + _value
""", """        for account, delta in ((_from, -_value), (_to, _value)):
            self._balances[account] += delta
"""), (I, """        if _value < 0:
            revert("Transferring value cannot be less than zero")
        if self._balances[_from] < _value:
            revert("Out of balance")
""", """        if not 0 <= _value <= self._balances[_from]:
            revert("Transferring value cannot be less than zero" if _value < 0 else "Out of balance")
""")],
    'formula-tables': [(M, """        temp = supply * result >> precision
        return temp - supply
""", """        return (supply * result) // (1 << precision) - supply
"""), (M, """        base_d = supply - sell_amount
        result, precision = self._power(supply, base_d, self._MAX_WEIGHT, connector_weight)
        temp_1 = connector_balance * result
        temp_2 = connector_balance << precision
        return (temp_1 - temp_2) // result
""", """        result, precision = self._power(supply, supply - sell_amount, self._MAX_WEIGHT, connector_weight)
        return self._part(connector_balance, result, precision)

    @staticmethod
    def _part(balance, result, precision):
        return balance * (result - 2 ** precision) // result
"""), (M, """        temp_1 = to_connector_balance * result
        temp_2 = to_connector_balance << precision
        return (temp_1 - temp_2) // result
""", """        return self._part(to_connector_balance, result, precision)
"""), (M, """        while lo + 1 < hi:
            mid = (lo + hi) // 2
            if self._max_exp_array[mid] >= x:
                lo = mid
            else:
                hi = mid

        if self._max_exp_array[hi] >= x:
            return hi
        if self._max_exp_array[lo] >= x:
            return lo

        return 0
""", """        position = 0
        for candidate in range(lo, hi + 1):
            if self._max_exp_array[candidate] >= x:
                position = candidate
        return position
"""), (M, """        res = 0

        if n < 256:
            # At most 8 iterations
            while n > 1:
                n >>= 1
                res += 1
        else:
            # Exactly 8 iterations
            s = 128
            while s > 0:
                if n >= (self._ONE << s):
                    n >>= s
                    res |= s
                s >>= 1
        return res
""", """        res = 0
        for s in (128, 64, 32, 16, 8, 4, 2, 1):
            if n >> s:
                n >>= s
                res += s
        return res
"""), (M, """            for i in range(self._MAX_PRECISION, 0, -1):
                # now 1 < x < 4
                x = (x * x) // self._FIXED_1
                if x >= self._FIXED_2:
                    # now 1 < x < 2
                    x >>= 1
                    res += self._ONE << (i - 1)
""", """            bit = self._ONE << (self._MAX_PRECISION - 1)
            while bit:
                x = x ** 2 >> self._MAX_PRECISION
                if x >= self._FIXED_2:
                    x //= 2
                    res |= bit
                bit >>= 1
""")],
    'registry-and-owner': [(R, """        if self._score_address[_scoreName] is None:
            return ZERO_SCORE_ADDRESS
        else:
            return self._score_address[_scoreName]
""", """        found = self._score_address[_scoreName]
        return ZERO_SCORE_ADDRESS if found is None else found
""")],
    'icx': [(X, """        self._balances[self.msg.sender] -= _amount
        total_supply = self._total_supply.get()
        self._total_supply.set(total_supply - _amount)
        self.icx.transfer(_to, _amount)
""", """        self._burn(self.msg.sender, _amount)
        self.icx.transfer(_to, _amount)
"""), (X, """    @external
    def withdrawTo(""", """    def _burn(self, holder: Address, amount: int):
        self._total_supply.set(self._total_supply.get() - amount)
        self._balances[holder] = self._balances[holder] - amount

    @external
    def withdrawTo(""")],
}


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    props = [c['property'] for c in json.load(open(here + '/MANIFEST.json'))['checks']]
    for name in sys.argv[1:] or R_ALL:
        t = tempfile.mkdtemp(prefix='refactor.')
        repo = t + '/repo'
        shutil.copytree('/repo', repo, symlinks=True)
        for f, a, b in R_ALL[name]:
            s = open(repo + '/' + f).read()
            if s.count(a) < 1:
                print(name, 'NO MATCH', f, a[:80])
                continue
            open(repo + '/' + f, 'w').write(s.replace(a, b, 1))
        bad = []
        for p in props:
            r = subprocess.run(['python3-vt', here + '/run.py', 'check', p], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=repo))
            if r.returncode:
                bad.append(p)
                print(name, p, 'rc', r.returncode, r.stdout[-1500:][:1500])
        print(name, 'quiet' if not bad else bad, flush=True)
        shutil.rmtree(t)


if __name__ == '__main__':
    main()
