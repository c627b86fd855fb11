#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state, observe):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(text.split())),
        why_tests_cant=' '.join(why.split()),
        anchors=dict(files=['forecaster/' + f for f in files],
            mechanism=[dict(name=n, where='forecaster/' + w) for n, w in mech],
            state=[dict(name=state)], observe_at=[observe], hook_needed=None)))

p('C01', 'Year-by-year records: past years are immutable and objects never mix',
  '''An object that advances year by year exposes, for every recorded quantity, a history that maps each past
  year to exactly the value the quantity had when that year closed and the current year to its present value;
  nothing done later, to it or to any other object of the same kind, changes a past year's entry. (The cost
  base of a taxable account is recorded one year ahead, as the next year's opening value.) A
  caller-supplied value for a year is the value the object reports in that year, both as its current value and
  in the history. Advancing moves the current year forward by exactly one.''',
  ['histories', 'inputs'], '''All sequences of read, assign, delete, cache-clear and advance operations over
  one or two ledger objects, with every pattern of supplied per-year inputs, up to a depth bound.''',
  '''Tests advance an object once or twice along one hand-picked path; whether a stale cache, an alias or a
  shared default leaks into history depends on the order of reads, writes and advances.''',
  ['ledger/base.py', 'ledger/recorded_property.py', 'forecast/subforecast.py', 'accounts/base.py'],
  [('recorded properties and their histories', 'ledger/recorded_property.py'), ('annual advance', 'ledger/base.py')],
  'per-object caches, histories and inputs', 'public properties, *_history mappings, this_year')

p('C02', 'Account balances equal the time value of opening balance and transactions',
  '''At every point of the year an account's balance equals its opening balance and every transaction recorded
  up to that point, each grown at the account's rate (with its compounding) for the time it was invested. The
  balance at the end of one year is the opening balance of the next, the reported return is exactly the growth
  not explained by transactions, and inflows and outflows are the totals of the positive and the negative
  transactions.''',
  ['histories', 'inputs'], '''All transaction and advance sequences up to a depth bound over accounts with
  every compounding frequency, several rates (zero, positive, negative), several transaction times, repeated and
  opposite-signed amounts.''',
  '''Tests check single transactions at a few times; the interplay of repeated transactions, rate changes
  between years, compounding frequency and opening balance is combinatorial.''',
  ['accounts/base.py', 'accounts/util.py', 'accounts/debt.py'],
  [('balance at a time', 'accounts/base.py Account.balance_at_time'), ('accumulation', 'accounts/util.py'),
   ('annual advance', 'accounts/base.py Account.next_year')],
  'balance and rate histories, transactions of each year', 'balance, balance_at_time, returns, inflows, outflows, histories')

p('C03', 'Transaction limits: proposed amounts are feasible, tight and follow the timing',
  '''The largest withdrawal an account offers for a given timing, made in full, brings the year-end balance to
  its target (zero by default) unless limited, never below it, and never exceeds its withdrawal limit less what was already
  withdrawn; likewise contributions and their limits, and minimums. The amounts are spread over the requested
  timing in proportion to its weights, outflows are never positive and inflows never negative. Recording exactly
  the offered amounts is always accepted and leaves nothing further to offer.''',
  ['inputs', 'histories'], '''All combinations of balances, rates, timings (single, multiple, unequal weights),
  prior transactions, and minimum/maximum limits set, unset or zero, within a finite alphabet.''',
  '''Tests pick one limit and one timing at a time; correctness is a relation between prior transactions,
  growth and the shape of the timing.''',
  ['accounts/base.py', 'accounts/debt.py', 'accounts/linked_limit.py'],
  [('limits', 'accounts/base.py Account.max_inflows/max_outflows/min_inflows/min_outflows')],
  'transactions, limits', 'max_inflows, max_outflows, min_inflows, min_outflows')

p('C04', 'Debts: payments never exceed what is owed, minimums and schedules are honoured',
  '''A debt's balance never becomes positive by recording the payments it offers, its offered minimum payment
  never exceeds its maximum payment nor what is owed, and a payment of the maximum retires it. A debt accepts no
  withdrawal. Given an accelerated-payment limit, the maximum is the minimum payment plus that limit, counted
  together with payments already made.''',
  ['histories', 'inputs'], '''All debts in a grid of balance, rate, compounding, minimum payment, acceleration
  limit and payment timing, over all sequences of partial, minimum and maximum payments and year advances up to
  a depth bound.''',
  '''Tests use two or three debts for one year; overpayment and residual balances appear only for particular
  rate, timing and earlier-payment combinations.''',
  ['accounts/debt.py', 'accounts/base.py'], [('payment limits', 'accounts/debt.py')],
  'debt balance and transactions', 'balance, max_inflows, min_inflows, max_outflows')

p('C05', 'Linked accounts share one limit, consistently for all of the group',
  '''Accounts linked to one another see the same shared limit, and every contribution or withdrawal to any
  member reduces what every member may still contribute or withdraw by exactly that amount; accounts not linked
  are unaffected. The four kinds of limit (maximum and minimum, inflow and outflow) are independent of each other.
  Registering, unregistering and linking in any order leaves each account in exactly the group it was last put in,
  and setting a limit through one member is seen through every other.''',
  ['histories', 'configurations'], '''All sequences of create, link, register, unregister, set-limit and
  transact operations over two to three accounts up to a depth bound, for each limit kind.''',
  '''Tests cover pairs in one order for the inflow limit; group membership is a state machine whose defects need
  three parties or a re-link.''',
  ['accounts/link.py', 'accounts/linked_limit.py'],
  [('link registry', 'accounts/link.py'), ('shared limits', 'accounts/linked_limit.py')],
  'group membership, group data', 'limits and transaction limits of each account, link membership')

p('C06', 'Contribution room of registered accounts follows the statutory rule, per person',
  '''Each year's contribution room of a registered savings account is last year's unused room, plus amounts the
  rules restore, plus the year's accrual (an income share capped by the indexed maximum for pension plans; the
  indexed, rounded annual amount for tax-free plans), and zero after the mandatory conversion age for pension
  plans. All of a contributor's accounts of one kind share one room, whatever the number of accounts, which of them
  receives the money, and the order in which accounts are created and advanced. Offered contributions never exceed
  the remaining room.''',
  ['histories', 'configurations'], '''All multi-year histories up to a depth bound of contributions, withdrawals
  and advances (in every account order) over one to three accounts and one or two people, over grids of income,
  age and inflation.''',
  '''Tests advance one account for a year or two; the shared room depends on advance order, accounts involved,
  withdrawals restored, ages and indexation, over several years.''',
  ['canada/accounts/registered_account.py', 'canada/accounts/rrsp.py', 'canada/accounts/tfsa.py', 'canada/constants.py'],
  [('room roll-over', 'canada/accounts/registered_account.py'), ('accrual', 'canada/accounts/rrsp.py, tfsa.py next_contribution_room')],
  'contribution room shared by group', 'contribution_room, contribution_room_history, max_inflows')

p('C07', 'Pension-plan withdrawals: income, deduction, withholding and minimums are right',
  '''Withdrawals from a pension plan are taxable income in full, contributions are deductible in full, and tax is
  withheld on withdrawals (beyond the mandatory minimum once converted) at the rate of the bracket the amount falls
  in (an amount exactly at a threshold is in the lower bracket), thresholds being indexed. From the year after conversion, the minimum withdrawal is the statutory fraction of
  the opening balance for the owner's age and is offered as a minimum outflow; before that there is none. The plan
  converts no later than the mandatory age.''',
  ['inputs', 'histories'], '''All grids of age, conversion year, balance, year, inflation, contributions and
  withdrawals (amounts on both sides of each bracket edge), over consecutive years.''',
  '''Tests pin one age and one amount per rule; edges (conversion year, bracket edges after indexation, ages
  outside the table) multiply.''',
  ['canada/accounts/rrsp.py', 'canada/constants.py'], [('withholding, minimums', 'canada/accounts/rrsp.py')],
  'transactions of the year, conversion year', 'taxable_income, tax_withheld, tax_deduction, min_outflows, rrif_conversion_year')

p('C08', 'Taxable accounts: cost base and capital gains follow the average-cost method',
  '''After any sequence of purchases and sales over any number of years, the adjusted cost base equals that of
  the average-cost method applied in time order, whatever order transactions were recorded in, and realised gains
  equal proceeds less the average cost of what was sold. Reading a value at any point never changes later results.
  Over the life of the account, realised gains plus the gain still embedded equal the total growth.''',
  ['histories'], '''All sequences of buy, sell, read and advance operations up to a depth bound, at several times
  of the year and recorded in any order, over several growth rates.''',
  '''Tests use one or two transactions per year; cost base is path dependent and cached.''',
  ['canada/accounts/taxable_account.py'], [('cost base and gains', 'canada/accounts/taxable_account.py')],
  'cost base, transactions', 'acb, acb_history, capital_gain, taxable_income')

p('C09', 'Tax on income equals the sum over indexed brackets, whatever was asked before',
  '''The tax on an amount of income equals the sum, over brackets, of the marginal rate times the part of income
  in the bracket, less personal deductions and credits (never below zero), with thresholds, deductions and credits
  of unlisted years derived from the nearest listed year by inflation and rates never indexed. It is zero for
  non-positive income, continuous and non-decreasing in income. The result for a year does not depend on which
  years or incomes were asked about before.''',
  ['inputs', 'histories', 'configurations'], '''All sequences of tax queries over several years (listed, between,
  before, after) and incomes on and around every threshold, for several bracket schedules, deductions, credits and
  inflation paths, with every short order of queries.''',
  '''Tests query a fresh object a few times; lazily extended yearly tables make the answer potentially dependent
  on earlier queries.''',
  ['tax.py', 'utility/inflation.py', 'scenario.py'], [('brackets and lazy indexation', 'tax.py Tax')],
  'lazily extended per-year tables', 'Tax(...) results, tax_brackets, marginal_rate, accum')

p('C10', 'Household tax is the sum of each person taxed once on all of their sources',
  '''The tax of a set of people is the sum of each person's tax on the sum of that person's income sources, with
  each source, deduction and credit counted exactly once, spouses included, and does not depend on the order or the
  container in which people are given. Combining several jurisdictions gives the sum of their taxes. Each person's
  refund or amount owing is the tax assessed less what was withheld, once.''',
  ['configurations', 'inputs'], '''All households of one to three people with and without spouses, zero to two
  accounts each (shared or not) with positive, zero and negative incomes, credits, deductions and withholdings,
  in all orders and groupings, for one and two jurisdictions.''',
  '''Tests check one person or one couple with one account; double counting shows only for particular
  combinations of spouse, shared account and deduction.''',
  ['tax.py', 'canada/tax.py', 'person.py', 'forecast/tax.py'],
  [('tax of people', 'tax.py Tax.tax_people, tax_person, tax_spouses'), ('federal plus provincial', 'canada/tax.py')],
  'tax sources per person', 'Tax(people, year), TaxMulti, TaxForecast results')

p('C11', 'Canadian income tax follows federal plus provincial statutory rules',
  '''A Canadian resident's tax is federal plus provincial tax, each applied to total income less deductions
  (among them the basic personal amount) and then reduced by non-refundable credits at the lowest rate, never
  negative in either jurisdiction. A spousal credit is claimed by at most one spouse, the one with the higher net
  income, is reduced by the other's net income (never below zero), and never increases household tax. Pension income credit is limited to eligible pension income and the annual maximum.''',
  ['inputs', 'configurations'], '''All one- and two-person households over grids of incomes around each threshold,
  account mix, ages, provinces, years and inflation.''',
  '''Tests assert a few numeric incomes; credits interact with each other and with zero-income spouses.''',
  ['canada/tax.py', 'canada/constants.py', 'tax.py'], [('credits and jurisdictions', 'canada/tax.py')],
  'household composition', 'TaxCanada(people, year)')

p('C12', 'Timings are normalised schedules; converting and combining flows conserves money',
  '''A timing is a set of times within the year with non-negative relative weights, built alike from a frequency,
  a date-like number or a mapping; splitting an amount over a timing yields amounts that sum to it, in
  proportion to the weights. Turning available cash flows into an outflow timing never proposes spending money
  before it is available when that can be avoided, and never more than is available. Adding and subtracting
  transaction mappings is exact at every time and leaves the inputs unchanged.''',
  ['inputs'], '''All small transaction mappings (up to five times, positive, zero and negative amounts) and all
  supported timing notations and frequencies.''',
  '''Tests sample a few mappings; whether running balances go negative depends on the sign pattern over time.''',
  ['utility/timing.py'], [('timing construction and conversion', 'utility/timing.py')],
  'none', 'Timing, time_series, transactions_from_timing, add_transactions, subtract_transactions')

p('C13', 'Inflation adjustment composes over years and scenarios are consistent',
  '''The inflation adjustment between two years is the product of the yearly rates between them, so adjusting from
  one year to a second and then a third equals adjusting directly, there and back gives the original, and a year to
  itself gives one. Amounts are extended to unlisted years from the nearest listed year by exactly that adjustment
  and listed years are returned unchanged. A scenario reports for each year the rate it was built with, and rates
  are independent of query order.''',
  ['inputs', 'histories'], '''All pairs and triples of years in small scenarios, all short rate sequences,
  constant or per-year, and all query orders up to a depth bound.''',
  '''Tests evaluate single pairs of years; composition is a statement about all triples.''',
  ['scenario.py', 'utility/inflation.py'], [('accumulation', 'scenario.py'), ('extension', 'utility/inflation.py')],
  'cached accumulation', 'Scenario, InflationAdjust, extend_inflation_adjusted')

p('C14', 'Each forecast step moves money without creating, losing or repeating any',
  '''A forecast step records every flow exactly once on each side: what leaves one account or pool enters the
  other, at the same time, and the sum over everything touched is unchanged. Recomputing a step in the same year,
  any number of times, has the same effect as computing it once, and undoing restores every account and pool
  exactly; the totals a step reports once computed are those of its latest computation, whatever was read before.
  Closing the year preserves that year's flows in the history.''',
  ['histories'], '''All sequences of record, recompute, undo and advance operations up to a depth bound over
  transfers between two or three accounts and the pool of available money, with all timing choices.''',
  '''Tests invoke a step once, occasionally twice; duplication or loss appears on the third call, after an
  advance, or for self-covering flows.''',
  ['forecast/subforecast.py'], [('record, undo and redo flows', 'forecast/subforecast.py')],
  'recorded flows, available pool', 'accounts, available, transactions and their history')

p('C15', 'A forecast is cash-balanced every year and all its parts share one clock',
  '''In every year of a forecast, the money received (income, withdrawals, refunds, carry-over) equals the money
  used (living expenses, saving, debt payment, taxes) plus what is carried over to the next year, in total and
  cumulatively at each time, and each reported total equals the flows it summarises. Only a surplus is saved, only a
  shortfall (or, if more, the registered accounts' minimum withdrawals) is withdrawn, and the tax withheld or owing in one year is settled once, in that year or the next. Every person, account and step is in the same
  year, and advances exactly once per year. Net worth changes only by returns and by flows in and out of the
  household.''',
  ['histories', 'configurations'], '''All forecasts over a finite grid of people (working, retiring, retired),
  account mixes, strategies, timings and scenario rates, for several years.''',
  '''Tests check individual totals on a hand-built year; conservation is a statement about whole runs over all
  configurations including retirement and withdrawals.''',
  ['forecast/base.py', 'forecast/income.py', 'forecast/living_expenses.py', 'forecast/saving.py', 'forecast/withdrawal.py', 'forecast/tax.py'],
  [('annual loop', 'forecast/base.py'), ('steps', 'forecast/*.py')],
  'ledger objects of the run', 'forecast totals and histories, account balances')

p('C16', 'Building and running forecasts is repeatable, isolated and honours its inputs',
  '''Running the same forecaster twice, or two forecasters with the same inputs, gives identical results, in any
  order and whatever other forecasts were run in between; objects supplied by the caller are not changed by a run.
  A value given explicitly takes precedence over settings, which take precedence over defaults; and each setting
  affects what it names and nothing else. A forecast covers exactly the years of its scenario.''',
  ['configurations', 'histories'], '''All combinations of explicit or defaulted parameters (each one and each
  pair), and all short sequences of build and run operations on one or two forecasters.''',
  '''Tests build each component once; leaks of state between runs need a second run and a comparison.''',
  ['forecaster.py', 'settings.py', 'canada/forecaster.py', 'canada/settings.py'],
  [('parameter building', 'forecaster.py'), ('settings', 'settings.py')],
  'forecaster parameters, copied inputs', 'Forecaster.run_forecast results and component attributes')

p('C17', 'Allocating money over a priority tree is feasible, maximal and ordered',
  '''An allocation never gives any account more than it can accept at that time nor allocates more than is
  available, and allocates everything that the accounts together can accept, satisfying minimums before
  discretionary amounts. In an ordered list no account receives discretionary money while an earlier one could
  accept more; in a weighted group money is shared in proportion to the weights until a member is full, its share
  then going to the others (in proportion too; totals include minimums). Limits on a group of linked accounts or on
  a node of the tree are respected. Minimum withdrawals are made even beyond the amount needed.''',
  ['inputs', 'configurations'], '''All priority trees up to a size and depth bound over two to four accounts with
  limits, minimums, shared groups and node limits from a small alphabet, for every available amount around every
  breakpoint, inflow and outflow.''',
  '''Tests cover a dozen trees; interactions of nesting, shared limits, minimums and breakpoints are
  combinatorial.''',
  ['strategy/transaction/base.py', 'strategy/transaction/graph.py', 'strategy/transaction/node.py', 'strategy/transaction/util.py'],
  [('flow assignment', 'strategy/transaction/base.py'), ('graph construction', 'strategy/transaction/graph.py')],
  'none', 'allocation returned by a traversal')

p('C18', 'Saving and debt strategies rank accounts exactly as configured',
  '''Saving strategies serve account types strictly by configured order, or in proportion to configured weights,
  accounts of one type equally; types without weights receive nothing. High-interest debts are repaid before any
  discretionary saving, the highest-rate-first strategy orders debts by rate and the smallest-balance-first by
  balance, each paying minimums on all debts first, and no debt is overpaid. The total allocated never exceeds the
  money available and the result does not depend on the order in which accounts are listed.''',
  ['inputs', 'configurations'], '''All sets of up to four accounts and debts from a small pool with all listing
  orders, weights, thresholds, strategies and available amounts on a breakpoint grid.''',
  '''Tests check a few fixed rankings; ties, orders of listing and mixed debts and savings are combinatorial.''',
  ['strategy/transaction/strategy.py', 'strategy/debt_payment/base.py', 'strategy/debt_payment/util.py', 'strategy/base.py'],
  [('weights to tree', 'strategy/transaction/strategy.py'), ('debt order', 'strategy/debt_payment/util.py')],
  'none', 'strategy results')

p('C19', 'Asset allocation always sums to one and stays within its equity bounds',
  '''For every age, retirement age and strategy the fractions of stocks, bonds and other assets are each
  non-negative and sum to one, and the equity fraction lies between the configured minimum and maximum. The rate of
  return built from an allocation is the weighted sum of the scenario's returns for that year, for every year.
  The equity share never rises with age.''',
  ['inputs'], '''All ages from 0 to 120, all retirement ages, targets, risk transition lengths and bounds of a
  grid, and all scenario years.''',
  '''Tests check a few ages for default bounds.''',
  ['strategy/allocation.py', 'scenario.py', 'person.py'], [('allocation', 'strategy/allocation.py')],
  'none', 'AllocationStrategy results and the rate function')

p('C20', 'Living-expense strategies return their documented, never negative, amounts',
  '''Each living-expense rule returns its documented amount (constant, contribution share, share of gross or net
  income, share above earnings) adjusted for inflation from its base year, never negative, never more than income for
  rules defined as shares of it, and depends on people's incomes but not their order. Up to and including the
  retirement year (in a forecast, that of the first person to retire) the working rule applies and after it the
  retirement rule, but never less than the minimum rule if there is one, in every year. Results do not depend on earlier
  queries.''',
  ['inputs', 'histories'], '''All rules over a grid of incomes, people, rates, bases, inflation and years, and
  retirement patterns.''',
  '''Tests check one value per rule.''',
  ['strategy/gross_transaction.py'], [('rules and schedule', 'strategy/gross_transaction.py')],
  'none', 'LivingExpensesStrategy, LivingExpensesStrategySchedule results')

p('C21', 'People: marriage is mutual, ages and incomes advance correctly every year',
  '''Marriage is always mutual and exclusive: whoever is a person's spouse has that person as spouse, after any
  sequence of marrying, separating and remarrying. Age at any year or date is the number of completed years since
  birth (in a year: on the birthday in it; a leap-day birthday is 28 February in common years), whatever form dates
  are given in; retirement date and age agree with each other. Gross income grows by the given raise each year
  through the year of retirement and is zero after. Net income is gross income less tax withheld.''',
  ['histories', 'inputs'], '''All sequences of spouse assignments over three people up to a depth bound; all birth
  dates on calendar edges against all query dates; all raise and retirement patterns over several years.''',
  '''Tests use two people and one date; exclusivity needs three people, and calendar edges are many.''',
  ['person.py'], [('spouse link', 'person.py Person.spouse'), ('income', 'person.py Person.gross_income')],
  'spouse links, income histories', 'spouse, age, retirement_date, gross_income, net_income')

p('C22', 'High-precision mode gives the same results with full precision, per object',
  '''When a high-precision numeric type is requested and money and rates are given in it (plain numbers given as strategy
  parameters are converted), every monetary or rate value an object reports is of that type and agrees with
  ordinary-precision results to within rounding; unset, values are used as given. One object's precision setting or
  values never influence another object. Values assigned before and after creation convert alike.''',
  ['configurations', 'histories'], '''All components built in ordinary and in high precision, over all interleaved
  read and assign sequences on two objects up to a depth bound.''',
  '''Tests exercise one object at a time; leakage through class-level state needs two.''',
  ['utility/precision.py', 'accounts/base.py', 'person.py', 'tax.py', 'scenario.py'],
  [('conversion descriptors', 'utility/precision.py')], 'converted values', 'public numeric attributes and results')

p('C23', 'Settings and constants survive writing and reading unchanged',
  '''Values written to a file and read back are equal, including nested mappings and sequences, numeric keys, dates as text and
  exact numbers in high precision (text that is a number is read as that number, if so asked); names listed in a file are available as attributes, and missing names fall back
  to the caller's defaults. Reading and failed writes leave the file unchanged, and overriding, deleting or changing a
  value in one reader affects neither the file nor other readers nor the defaults.''',
  ['inputs', 'histories'], '''All values of a grammar up to depth three over a scalar alphabet; all sequences of read,
  override, delete and write operations up to a depth bound on two readers of one file.''',
  '''Tests round-trip one file with a few values.''',
  ['value_reader.py', 'settings.py', 'canada/settings.py', 'canada/constants.py'],
  [('JSON round trip', 'value_reader.py')], 'file content, reader attributes', 'reader attributes, file bytes')

p('C24', 'Accounts belong to exactly one owner, and people and accounts keep pace',
  '''After any sequence of creating accounts, changing their owners and advancing objects, every account is among the
  accounts of its present owner and of nobody else, and an account without an owner is among nobody's. Advancing an
  account moves it forward by exactly one year; an owner who is behind is first brought up to the year being closed,
  never beyond it, and one who is ahead is left alone; advancing a registered account also brings the accounts sharing
  its room and its contributor to the new year, each year exactly once. Advancing a person advances nobody else.''',
  ['histories'], '''All sequences of creations, owner changes (also rejected ones) and advances up to a depth bound over
  one to three people, starting in equal or different years, and up to three accounts of every kind.''',
  '''Tests advance one or two objects once; lagging owners, shared contributors and changed owners need sequences.''',
  ['accounts/base.py', 'person.py', 'canada/accounts/registered_account.py', 'ledger/base.py'],
  [('ownership', 'accounts/base.py Account.owner'), ('advancing', 'accounts/base.py Account.next_year')],
  'Person.accounts, Account.owner, this_year of all', 'accounts, owner, this_year, balance_history, gross_income_history')

p('C25', 'Invalid input is rejected in every state, and a rejected call changes nothing',
  '''Values which the documentation rules out (times outside the year, unknown or non-positive compounding frequencies,
  retirement before birth or unset, owners or spouses who are not people, a pension plan's conversion after the
  mandatory year, equity bounds the wrong way round, unknown strategies, limits set without a link, contradictory or
  missing arguments, a scenario without years, files not holding a mapping) are rejected with the documented type of
  error in every state; afterwards the objects involved, and those they refer to, report and behave exactly as if the
  call had never been made. The limiting valid values are accepted and take effect.''',
  ['histories', 'inputs'], '''All sequences of valid and invalid calls up to a depth bound on people and on every kind of
  account, against twins which never receive the invalid ones; all invalid and limiting arguments of a list.''',
  '''Tests check that a few errors are raised in one state, not what is left behind.''',
  ['accounts/base.py', 'person.py', 'accounts/link.py', 'accounts/linked_limit.py', 'canada/accounts/registered_account.py',
   'canada/accounts/rrsp.py', 'utility/timing.py', 'strategy/base.py', 'strategy/allocation.py', 'scenario.py',
   'value_reader.py'],
  [('setters', 'person.py, accounts/base.py'), ('conversions', 'utility/timing.py when_conv, frequency_conv')],
  'all reported values', 'exceptions and reported values')

p('C26', 'Every kind of account reports its taxes by its own rule, and owners add them up',
  '''A plain account's or debt's taxable income is the year's return if positive and zero otherwise; a tax-free account's
  and a principal residence's is always zero; a pension plan's is its withdrawals, with a deduction of its
  contributions; a taxable account's is half of the realised gain. Only pension plans withhold tax and no kind gives a
  credit. At any time a person's taxable income, deductions and credits are the sums over the accounts the person owns
  then, plus salary for income; tax is withheld by the person's tax treatment on salary alone. Each year's values stay
  in the histories.''',
  ['histories'], '''All sequences of deposits, withdrawals, owner changes and advances up to a depth bound over every kind
  of account, alone and in groups of up to three, with gains and losses.''',
  '''Tests check each value once per class; losses after gains, owner changes and mixtures need sequences.''',
  ['ledger/base.py', 'accounts/base.py', 'person.py', 'canada/accounts/principle_residence.py', 'canada/accounts/tfsa.py',
   'canada/accounts/rrsp.py', 'canada/accounts/taxable_account.py'],
  [('sums', 'person.py Person.taxable_income'), ('rules', 'accounts/base.py Account.taxable_income')],
  'transactions, returns, gains', 'taxable_income, tax_deduction, tax_credit, tax_withheld and their histories')

p('C27', 'Copies of people and accounts behave like their originals, independently',
  '''Copies of people and accounts made together (by deepcopy, as a Forecaster does before each run), at any time in their
  histories, are related among themselves as the originals are: spouses, owners, contributors, shared limits, and rates
  or raises that depend on a person or account. A copy reports the past and present of its original and goes on as the
  original would; nothing done to an original afterwards affects a copy, nor the reverse, nor one copy another.''',
  ['histories', 'object graphs'], '''All sequences of transactions, advances, owner, spouse, limit, rate and retirement changes, with
  copying at any point in between and later operations reaching any of the copies, up to a depth bound.''',
  '''The tests copy once, before anything has happened, and look at two attributes; references that leak out of a copy show
  only when one side changes afterwards.''',
  ['ledger/base.py', 'accounts/base.py', 'person.py', 'accounts/link.py', 'strategy/allocation.py', 'forecaster.py'],
  [('rates', 'strategy/allocation.py RateFunction'), ('links', 'accounts/link.py AccountLink'), ('runs', 'forecaster.py Forecaster.run_forecast')],
  'copies, transactions, attribute changes, advances', 'every public property and history of people and accounts, relations by position')

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    print(len(P), 'properties')
