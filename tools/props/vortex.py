F = 'pallet/vortex-distribution/src/lib.rs'
TV = 'explicit-state BFS of calls on the real pallet in lock-step with a reference model'
prop('U01', 'vortex', 'A vortex distribution pays each registered reward exactly once',
 '''A distribution goes from enabled over triggered and paying to done, or is disabled, and never back; only root or the administrator that root has set move it, register rewards or set prices and eras. Rewards are registered while it is enabled, and the last registration for an account counts. Triggering moves the listed assets of the fee pot and the ROOT of the root pot into the vault, and starting mints exactly the sum of the registered rewards. Payments, which only unsigned transactions make, pay every registered account its reward exactly once, a batch at a time, and the distribution is done when and only when all are paid. Validators, and nobody else, send payments for the distributions that are paying, at most once per interval, and no other unsigned call is valid. What is refused changes nothing.''',
 'histories', 'every sequence of calls by root, administrator and others, payments, worker runs and earnings to the stated depth from five situations (several distributions at once, repeated registrations, disabled ones); complete distributions to every number of accounts to the bound with repetitions in lists of several sizes; all unsigned calls',
 'Payments resume from a stored map key over many blocks; a pivot, total or status that is off by one for some number of accounts pays twice, never ends, or leaves people out.',
 F, [('life of a distribution', F + ' create_vtx_dist to start_vtx_dist'), ('payments', F + ' pay_unsigned'), ('rewards', F + ' register_rewards'), ('worker', F + ' vtx_dist_offchain_worker')], state=[('VtxDistStatuses', 'status'), ('VtxDistOrderbook', 'rewards, paid or not'), ('VtxDistPayoutPivot', 'where payments resume'), ('TotalVortex', 'sum of the rewards')], technique=TV)
prop('U02', 'vortex', 'Redeeming vortex pays its share of the vault, and burns it',
 '''The holder of vortex tokens who redeems some of them against a distribution that is done gets, of each asset listed there, the share of the vault that these tokens are of all that exist, rounded down, and they are burnt, whatever the amounts. Nobody else's balance changes, nothing else leaves the vault, and nobody redeems what he does not hold, nothing, or against a distribution that is not done. VTX itself is never among the assets.''',
 'histories', 'every sequence of redemptions by several holders (none, one, some, all, one too many), with earnings, new registrations and distributions in between, to the stated depth; amounts, issuances and holdings of every order of magnitude to 2^126',
 'Products of two balances exceed 128 bits for real amounts, and shares depend on the order of transfers and burns.',
 F, [('redemption', F + ' redeem_tokens_from_vault'), ('assets', F + ' do_asset_price_setter')], state=[('AssetPrices', 'assets of a distribution')], technique=TV + '; exhaustive enumeration of amounts')
