"""Writes /verif/properties.jsonl from the list below (one source of truth)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(d)

FD = "auxi/modelling/financial/des.py"; FR = "auxi/modelling/financial/reporting.py"
BS = "auxi/modelling/business/structure.py"; BB = "auxi/modelling/business/basic.py"; BM = "auxi/modelling/business/models.py"
CT = "auxi/core/time.py"; CO = "auxi/core/objects.py"; CR = "auxi/core/reporting.py"
MC = "auxi/modelling/process/materials/chem.py"; MP = "auxi/modelling/process/materials/psd.py"
MS = "auxi/modelling/process/materials/slurry.py"; MT = "auxi/modelling/process/materials/thermo.py"
ST = "auxi/tools/chemistry/stoichiometry.py"; TH = "auxi/tools/chemistry/thermochemistry.py"
PP = "auxi/tools/materialphysicalproperties/"
HT = "auxi/tools/transportphenomena/heattransfer/naturalconvection.py"
DQ = "auxi/tools/transportphenomena/dimensionlessquantities.py"
PD = "auxi/tools/transportphenomena/fluidflow/pressuredrop.py"

# ---------------------------------------------------------------- financial
p("F01", "General-ledger account tree stays consistent under every edit history",
  "After any sequence of creating, renaming and removing accounts (including nested ones), an account looked up by the slash-separated path of names from the root is exactly the account at that place, its recorded path is that path, its descendants are exactly the accounts below it, and looking up a path that does not exist yields nothing (None). Names present in the tree are accepted by account-name validation and any absent name is rejected with a ValueError. The structure report lists each income-statement and balance-sheet account once with its type, number and description.",
  ["histories"], "every history of create/rename/remove operations over a tiny name alphabet, from the default chart of accounts and from an empty one",
  "Tests build one fixed tree and make a couple of edits; stale paths after renaming a parent, lookups of absent paths and remove-then-recreate histories are not reached.",
  [FD, FR], [("path propagation", FD + ": GeneralLedgerAccount.set_parent_path / name setter"), ("lookup", FD + ": GeneralLedgerStructure.get_account, get_account_descendants, validate_account_names"), ("report", FR + ": GeneralLedgerStructure report")],
  [("accounts", "child accounts, in creation order", FD)])
p("F02", "Balance sheet equals the double-entry sum of every posted transaction",
  "For every ledger history the balance sheet shows, for each asset, liability and equity account touched within the requested range, exactly the net of the debits and credits posted to it (assets: debits less credits; liabilities and equity: credits less debits), and nothing else; its section totals are the sums of their rows. A transaction between two balance-sheet accounts always changes total assets and total liabilities plus equity by the same amount. Transactions dated after the requested end date do not count.",
  ["histories"], "every sequence of transactions up to the bound over all pairs of account types, both as debit and credit side, first and later postings, before, on and after the end date",
  "Tests post one or two hand-picked transactions; which side an account is first touched on, repeated postings and each account-type pair are separate branches.",
  [FD, FR], [("accumulation of debits and credits per account", FR + ": BalanceSheet._generate_table_")])
p("F03", "Income statement equals revenue less expense of the posted transactions",
  "For every ledger history the income statement shows for each revenue account its credits less its debits and for each expense account its debits less its credits as a deduction, taken over the non-closing transactions in the requested range, so that the displayed gross profit and net profit equal the sums of the rows above them. The result depends only on the multiset of transactions, not on whether an account was first touched by a debit or by a credit.",
  ["histories"], "every sequence of transactions up to the bound over income-statement and balance-sheet accounts on either side, closing and non-closing, inside and outside the range",
  "Tests render one statement from one history; the first-touch/later-touch and debit/credit combinations are never compared.",
  [FD, FR], [("accumulation per account", FR + ": IncomeStatement._generate_table_")])
p("F04", "Transaction list shows exactly the matching transactions, in date order",
  "For every ledger history, date range and component path, the transaction list contains one row per transaction dated inside the inclusive range (a limit given as a date stands for that whole day) and originating at or below the component path, in date order (transactions of the same moment in the order in which they were made), with its name, accounts, source, description and amount, followed by the total of exactly those amounts. No other transaction appears and none is repeated or lost.",
  ["histories"], "every transaction history up to the bound over dates before/at/inside/after both range ends and sources at, below, beside and outside the component path, and every range and path in the alphabet",
  "Tests list a single history with one range; boundary dates and sibling paths that share a prefix are not reached.",
  [FD, FR], [("filtering and sorting", FR + ": TransactionList._generate_table_")])

# ---------------------------------------------------------------- business
p("B01", "Activities execute at exactly the periods their schedule dictates",
  "For every clock granularity, start and end date-time (either may be left out) and interval, an activity executes in a period if and only if the period's number is a whole multiple of the interval, the period is at or after the first period that begins after the activity's start (the first period of the clock if it has no start), and a whole interval fits before the first period that begins after the activity's end; a basic activity then posts exactly one transaction with its debit and credit accounts, its positive amount and the clock's current time, and otherwise none. The outcome depends only on the schedule and the clock, so preparing and running the same activity again, including on another clock, gives the same postings as a fresh one.",
  ["configurations", "histories"], "every combination of clock period, start, end, interval and period index within the bound, and every pair of successive runs",
  "Tests check a handful of (start, end, interval) combinations on one clock and never run an activity twice.",
  [BS, BB, CT], [("execution criterion", BS + ": Activity._meet_execution_criteria"), ("start/end indices", BS + ": Activity.prepare_to_run / start/end setters"), ("posting", BB + ": BasicActivity.run")])
p("B02", "A loan activity amortises exactly: instalments repay principal plus interest",
  "For every principal, interest rate (zero included) and duration the loan activity receives the principal once, charges interest in each executed month on the outstanding amount, and pays equal instalments such that, repaid monthly, the outstanding amount reaches zero after the loan's duration and no further postings follow. At every step the ledger satisfies outstanding = principal + interest charged - instalments paid, and changing the amount, rate or duration before a run gives the same schedule as constructing the loan with those values.",
  ["configurations", "histories"], "every combination of principal, rate, duration, interval and start in the alphabet, every order of setting the parameters, and reruns",
  "Tests run one loan and compare a few amounts; zero rate, setters and reruns are not reached.",
  [BB], [("instalment formula and posting", BB + ": BasicLoanActivity")])
p("B03", "Component, entity and model trees keep consistent paths under every edit",
  "After any history of creating, renaming and removing entities, components and activities, each element's path is the path of its parent followed by its own name, a lookup by name returns exactly the live element and removed elements are unreachable. Adding an activity whose accounts are unknown to the ledger structure is rejected and leaves the component unchanged.",
  ["histories"], "every history of create/rename/remove operations on models, entities, components and activities up to the bound",
  "Tests create one tree in one order; the propagation of later renames and removals is not reached.",
  [BS, BM], [("path propagation", BS + ": set_parent_path / name setters"), ("create/remove/get", BS + ", " + BM)])
p("B04", "Year-end closing moves exactly the year's profit to retained earnings",
  "For every set of transactions in a financial year, closing the year leaves every revenue, expense and intermediate profit account with a zero balance for that year, moves exactly the year's net profit or loss (revenue less expense) into retained earnings, is dated within that year and considers each ordinary transaction once, in the year it is dated in. Consequently after closing total assets equal total liabilities plus equity.",
  ["histories"], "every multiset of transactions up to the bound over all account-type pairs, on either side, at, before and after each year boundary, over one to three years",
  "Tests close one hand-written year; refunds, losses, zero gross profit, transactions between two income-statement accounts and boundary dates are separate branches.",
  [BS], [("closing", BS + ": Entity._perform_year_end_procedure*")])
p("B05", "A model run is a complete, repeatable replay of its schedule",
  "Running a time-based model visits every period exactly once in order with the clock showing start plus that number of periods, runs every activity of every entity in each of them, and leaves in each entity's ledger exactly the postings dictated by its own activities during that run, with every financial year that ended during the run closed. Running it again produces the same ledger as the first run and as a freshly built model.",
  ["histories", "configurations"], "every model in the alphabet of (periods, granularity, entities, component nesting, activities) and every run/modify/rerun history up to the bound",
  "Tests run one model once and count transactions.",
  [BM, BS, CT], [("run loop", BM + ": TimeBasedModel.run"), ("per-run reset", BS + ": prepare_to_run")])

# ---------------------------------------------------------------- core
p("C01", "Clock time is start plus a whole number of periods, always",
  "After any history of ticks, resets and jumps the clock's date-time equals its start plus the current number of periods of its granularity (true calendar months and years), and asking for the date-time at a period index returns the same value without moving the clock. Times strictly increase with the period index, and textual dates are converted to the date-time they denote.",
  ["histories", "configurations"], "every granularity, start date (month ends and leap days included) and tick/reset/query history within the bound",
  "Tests tick each granularity once from one start date.",
  [CT, "auxi/core/helpers.py"], [("period arithmetic", CT + ": Clock.get_datetime_at_period_ix")])
p("C02", "Saving an object to file and reading it back yields an equivalent object",
  "For every persistable object (one whose text form is its data: clocks, ledgers and their structures, activities, components, entities, models, compounds, property models) reached by any history of operations, writing it to a file and reading it back yields an object of the same type with the same observable state and behaviour, writing the copy again yields the same text, and writing never changes the object.",
  ["histories"], "every object state reached by the histories in the alphabet (projects, ledgers, accounts, models, entities, compounds, property models), and every further operation applied to both original and copy",
  "Tests write and read one freshly constructed object.",
  [CO], [("serialisation", CO + ": Object.write / Object.read / _init")])
p("C03", "Every report format renders the same table",
  "For every report and every table of cells with a header, the file-based formats (text, CSV, LaTeX) and the console and string formats contain the same header and the same cells in the same order as the underlying table, and rendering has no effect on the reported object and leaves files other than the named one untouched.",
  ["inputs", "configurations"], "every table shape and cell kind in the alphabet, in every format, for every pair of successive renderings",
  "Tests only check that rendering does not raise.",
  [CR, FR], [("rendering", CR + ": Report.render")])
p("C04", "Objects hold exactly what they are given, and share nothing with others",
  "Every modelling object (projects, variables and variable groups, process models, clocks, accounts, transactions and templates, ledgers and their structures, components, entities, activities, loans and business models) can be constructed with any subset of its optional arguments, by position or by name, and then reports exactly the name, description and values it was given and the documented defaults for the rest; calling a variable or variable group gives its value. Setting an attribute changes that attribute of that object and nothing given to it or to any other object. The creating methods (accounts, transactions, entities, components) pass every argument on, and return the new child they added.",
  ["inputs", "histories"], "every class, every subset of its optional arguments over an alphabet of values, positionally and by name, and every history of two attribute settings over three live objects of the class",
  "Tests construct each class once or twice with one set of arguments; swapped, dropped or shared arguments show only for other subsets or with several objects alive.",
  [CO, CT, "auxi/modelling/core.py", "auxi/modelling/process/core.py", FD, BS, BB, BM],
  [("constructors", "__init__ of every class"), ("creating methods", FD + ": create_account, create_transaction; " + BS + ", " + BM + ": create_component, create_entity")])

p("C05", "A bibliography database gives exactly the entries of its file",
  "For every well-formed BibTeX file, of whatever entry types, layout and text, looking up the key of an entry of the file gives that entry with exactly the type and fields written in it, and any other key is refused with a KeyError. Reading does not change the file, and databases do not influence each other. The bibliography that is shipped offers every entry of its file.",
  ["inputs", "histories"], "every file over the alphabet of entry types, keys, fields, values and styles with up to three entries in every order, and every sequence of three databases read in turn",
  "Tests look up one entry of the shipped file.",
  ["auxi/core/bibliography.py"], [("reader", "auxi/core/bibliography.py: Database.__init__ / __getitem__")])

# ---------------------------------------------------------------- materials
p("M01", "Material definitions are read exactly and assays are stored independently",
  "For every well-formed material definition file, the material offers exactly the listed components in the listed order and each named assay with exactly the listed amounts, whatever the spacing, for component and assay names that are distinct and contain no whitespace; a package created from an assay holds the requested total mass in the assay's (normalised) proportions. Adding an assay is rejected for a duplicate name or wrong size without changing the material, and changing a package or an array passed in never changes a stored assay.",
  ["inputs", "histories"], "every definition file over the alphabet of components, assays and layouts, and every sequence of add-assay/create-package/mutate operations up to the bound, for the chemical, size-class, slurry and thermochemical material kinds",
  "Tests read one file per material kind and create one package.",
  [MC, MP, MS, MT], [("file reader", "Material.__init__ in each module"), ("assays", "Material.add_assay / create_package")])
p("M02", "Chemical material packages conserve every compound's mass in every history",
  "Under every sequence of adding, scaling, extracting, clearing and copying chemical material packages, the mass of each compound in each package equals that of a plain per-compound bookkeeping; adding never loses, duplicates or invents mass, extracting moves mass so that remainder plus extract equals the original, total mass and elemental masses are the sums over compounds. Operands not meant to change stay unchanged, and a rejected operation changes nothing.",
  ["histories"], "every operation sequence up to the bound over packages of the same material, of a sub-material, of a disjoint material, empty packages and compound tuples",
  "Tests perform single operations on fixed packages and mostly compare total mass.",
  [MC, ST], [("addition", MC + ": MaterialPackage.__add__ / add_to"), ("extraction", MC + ": MaterialPackage.extract")],
  [("compound_masses", "mass per compound", MC)])
p("M03", "Particle-size-distribution packages conserve every size class in every history",
  "Under every sequence of adding, scaling, extracting, clearing and copying packages, the mass in each size class equals that of plain per-class bookkeeping, total mass is the sum over classes and fractions are masses over the total. Operands not meant to change stay unchanged, and a rejected operation changes nothing.",
  ["histories"], "every operation sequence up to the bound over packages of the same material, a sub-material, a disjoint material, empty packages and class tuples",
  "Tests perform single operations on fixed packages and compare totals.",
  [MP], [("addition", MP + ": MaterialPackage.__add__ / add_to"), ("extraction", MP + ": MaterialPackage.extract")])
p("M04", "Slurry packages conserve solids, water and volume in every history",
  "Under every sequence of adding, scaling, extracting, clearing and copying slurry packages, the mass of each size class and of water equals plain bookkeeping, the solid volume (solid mass over solid density) of a mixture is the sum of the volumes mixed, and total mass, density, volume and the solids and water fractions follow from these. Operands not meant to change stay unchanged, and a rejected operation changes nothing.",
  ["histories"], "every operation sequence up to the bound over packages of equal and different materials, dry, wet, water-only and empty, class and water tuples",
  "Tests perform single operations on fixed packages and compare totals.",
  [MS], [("addition", MS + ": MaterialPackage.__add__ / add_to"), ("extraction", MS + ": MaterialPackage.extract")])
p("M05", "Thermochemical packages conserve mass and enthalpy, and stay H-T consistent",
  "Under every sequence of mixing, scaling, heating, extracting, clearing and copying packages, each compound's mass equals plain bookkeeping, the total enthalpy of a mixture equals the sum of the enthalpies of its parts, extraction keeps temperature and pressure and splits the enthalpy (extracting a compound the material does not have gives an empty package), and in every state the enthalpy is that of the composition at the package's temperature. Mixing packages of equal temperature keeps that temperature, mixing otherwise gives one between the extremes, operands not meant to change stay unchanged, and a rejected operation changes nothing.",
  ["histories"], "every operation sequence up to the bound over packages of equal, included and incompatible materials at different temperatures, compound tuples with and without temperature, strings, other packages as extraction selectors, and empty packages",
  "Tests perform one operation per package; combinations and the coupling of T and H after each one are not reached.",
  [MT, TH], [("T-H coupling", MT + ": MaterialPackage.T / H setters, _calculate_T"), ("addition", MT + ": MaterialPackage.__add__"), ("extraction", MT + ": MaterialPackage.extract")])
p("M06", "Thermochemical streams conserve mass flow and enthalpy flow in every history",
  "Under every sequence of mixing, scaling, heating, extracting, clearing and copying material streams, each compound's flow rate equals plain bookkeeping, the enthalpy flow of a mixture equals the sum of its parts, and in every state the enthalpy flow is that of the composition at the stream's temperature. Operands not meant to change stay unchanged, and a rejected operation changes nothing.",
  ["histories"], "every operation sequence up to the bound over streams of equal, included and incompatible materials at different temperatures, compound tuples and empty streams",
  "Tests perform one operation per stream.",
  [MT, TH], [("T-H coupling", MT + ": MaterialStream.T / Hfr setters, _calculate_T"), ("addition", MT + ": MaterialStream.__add__"), ("extraction", MT + ": MaterialStream.extract")])

# ---------------------------------------------------------------- chemistry
p("S01", "Molar mass and composition follow the formula's structure for every formula",
  "For every formula of the supported grammar (elements, subscripts, nested groups, dotted hydrates, phase suffix) the number of atoms of each element is that obtained by expanding the formula, the molar mass is the sum of the atomic masses over that expansion and the element set is the support of it. The phase suffix and surrounding structure that do not change the atom counts do not change any result, results do not depend on earlier calls, and a malformed formula is rejected.",
  ["inputs", "histories"], "every formula derivable from the grammar up to the bound over a small element alphabet, every element alone, every malformed variant, and every pair of successive calls",
  "Tests check a few dozen formulas.",
  [ST], [("parser and visitor", ST + ": parse_compound and the formula grammar"), ("cache", ST + ": molar_mass / lru_cache")])
p("S02", "Amount, mass, fraction and compound conversions are mutually consistent",
  "For every compound mixture with a positive total, amounts and masses convert to each other through the molar mass and back, mole and mass fractions sum to one and agree with the amounts and masses, element mass fractions of a compound sum to one, and converting a mass of one compound to another through a shared element conserves the mass of that element and converts back to the original. Inputs are never modified and results do not depend on the order of compounds or on earlier calls.",
  ["inputs", "histories"], "every compound (pair) and mixture in the alphabet, every element, every ordering, and every pair of successive calls",
  "Tests check one example per function.",
  [ST], [("conversion functions", ST)])
p("T01", "Heat capacity, enthalpy, entropy and Gibbs energy agree at every temperature",
  "For every compound and phase in the shipped thermochemical data or of the same form, magnetic contributions included, and every temperature in and around its range, G = H - T*S, enthalpy and entropy are the integrals of the heat capacity (Cp, and Cp/T) from the reference temperature of the data with no jumps at range boundaries, and above the last range the heat capacity stays at its last value. The mass-based helper functions (degrees Celsius, kWh) equal the molar values converted for every mass and are proportional to it, and an unknown compound or phase is rejected.",
  ["inputs", "histories"], "every shipped compound and phase at every range boundary, just inside, just outside and between, and every order of queries",
  "Tests sample a few compounds at a few temperatures.",
  [TH], [("piecewise integration", TH + ": CpRecord, Phase.Cp/H/S/G"), ("functions", TH + ": Cp, H, S, G")])
p("T02", "The thermochemical data store always reflects the last load exactly",
  "After any history of loading data folders, querying and writing compounds, the set of known compounds is exactly that of the last loaded folder, every compound has the phases and data of its file, and writing a compound to a data file and reading it back yields the same thermochemical behaviour. Queries and repeated loads never change results.",
  ["histories"], "every sequence of load (different folders, empty folder), query, and write-compound operations up to the bound",
  "Tests load once and look up a few names.",
  [TH], [("load", TH + ": load_data_auxi / load_data_factsage"), ("write", TH + ": write_compound_to_auxi_file")],
  [("compounds", "global table of loaded compounds", TH)])
p("T03", "FactSage data files are read into exactly the phases and records they list",
  "For every well-formed FactSage text file, the compound read has exactly the listed phases, each with its own reference enthalpy, entropy and heat-capacity records with the coefficients, exponents and temperature limits listed, independent of what other phases contain, so that its heat capacity equals the written polynomial in each range.",
  ["inputs"], "every file over the alphabet of phase counts, record counts, terms per record and temperature limits",
  "Tests read the shipped files only.",
  [TH], [("reader", TH + ": _read_compound_from_factsage_file_")])

# ---------------------------------------------------------------- property models
p("P01", "Property models reject states outside their domain and never disturb inputs",
  "Every physical-property model evaluated at a state whose quantities lie inside its declared ranges returns a finite, positive value, and one that is missing a required quantity, has an unknown one or one of the wrong type, or has one outside the declared range is rejected with a ValueError before anything is computed. Evaluation never modifies the passed composition, and the value does not depend on earlier evaluations or on other models evaluated in between.",
  ["inputs", "histories"], "every shipped model, every boundary/inside/outside value of each state variable, every missing/extra variable combination, and every pair of successive evaluations",
  "Tests evaluate each model at one or two points.",
  [PP + "core.py", PP + "idealgas.py", PP + "gases.py", PP + "slags.py", PP + "coals.py", PP + "liquids.py", PP + "polynomial.py"],
  [("validation", PP + "core.py: Model.__call__ / state_validator")])
p("P02", "Gas-mixture properties obey the mixing rules' invariants",
  "For every mixture of the supported gases the mixture viscosity and heat capacity equal the published mixing rule applied to the pure-gas values, reduce to the pure value for a pure gas (also when split over zero-fraction components), lie between the smallest and largest pure value where the rule is an average, and do not depend on the order of components or on the scale of the composition. The ideal-gas density and expansion models satisfy rho = P*M/(R*T) and beta = 1/T everywhere.",
  ["inputs"], "every subset of up to four gases in every order with every composition and temperature in the alphabet",
  "Tests evaluate one binary mixture per rule.",
  [PP + "gases.py", PP + "idealgas.py"], [("mixing rules", PP + "gases.py: WilkeMuTx, HerningZippererMuTx, IdealCpTx ..."), ("ideal gas", PP + "idealgas.py")])
p("P03", "Slag, coal and dataset-based property models reproduce their correlations",
  "For every composition and temperature in the supported range the slag-viscosity and coal models equal the published correlation, mass- and mole-fraction entry points agree, the viscosity of a slag decreases strictly with temperature, and coal enthalpy is the integral of coal heat capacity. A polynomial model fitted to a dataset reproduces data generated by a polynomial of that degree, accepts exactly the dataset's temperature range and survives saving and loading unchanged; a dataset read from a file holds exactly the names, units and values written in it.",
  ["inputs", "histories"], "every composition, temperature and degree in the alphabet; every create/query/write/read history",
  "Tests compare one or two values per model.",
  [PP + "slags.py", PP + "coals.py", PP + "polynomial.py", PP + "core.py"], [("Urbain, Riboud", PP + "slags.py"), ("Daf", PP + "coals.py"), ("fit", PP + "polynomial.py: PolynomialModelT.create")])

p("P04", "Materials give exactly what their property models give, and derive the rest",
  "A material with any subset of property models gives for each property exactly the value of its own model for the state asked for. Without a model of their own, the thermal diffusivity is k/(rho*Cp) and the kinematic viscosity is mu/rho at that state. A property that has no model and cannot be derived is refused. Materials do not influence each other and evaluations do not influence later ones. The shipped gases and water carry the names, states, symbols and units of their data sets, and their properties are consistent with each other and with their data sets at every temperature of the data.",
  ["configurations", "inputs"], "every subset of the seven properties, every state in the alphabet, every shipped material at every data temperature and on a grid between them",
  "Tests evaluate the properties of air at one temperature.",
  ["auxi/modelling/process/materials/core.py", PP + "gases.py", PP + "liquids.py"],
  [("property access", "auxi/modelling/process/materials/core.py: Material"), ("shipped materials", PP + "gases.py, " + PP + "liquids.py")])

# ---------------------------------------------------------------- transport
p("H01", "Natural-convection correlations cover the whole domain and depend on inputs only",
  "For every inclination from -90 to 90 degrees with the vertical, every Rayleigh number and hot or cold surface, exactly one region of the region diagram (angle against order of magnitude of the Rayleigh number; a cold surface is the mirror image of a hot one) applies, and the local Nusselt number is that of the region's correlation with fluid properties at the film temperature. The local and average Nusselt numbers and heat-transfer coefficients are finite, positive and mutually consistent (h = Nu*k/L), and an evaluation does not depend on previous evaluations.",
  ["inputs", "histories"], "every region boundary, interior and neighbouring (angle, Rayleigh number, hot/cold, gas/liquid) combination, and every pair of successive evaluations",
  "The existing tests of this module evaluate one state and two points of one region.",
  [HT], [("region table", HT + ": Region, IsothermalFlatSurface"), ("evaluation", HT + ": Nu_x, Nu_L, h_x, h_L")])
p("H02", "Dimensionless quantities and pressure-drop relations satisfy their identities",
  "For every admissible input, the dimensionless groups equal their definitions and satisfy Ra = Gr*Pr, friction factors satisfy their defining equations in laminar and turbulent flow (the implicit Colebrook relation included), the explicit and implicit turbulent correlations agree within the correlation's accuracy, a warning is given exactly for conditions outside the range of the explicit correlation (and never when warnings are switched off) and does not change its value, and the pressure drop follows from the friction factor, length, hydraulic diameter, density and velocity.",
  ["inputs"], "every combination of boundary and interior values in the alphabet",
  "Tests evaluate none of these functions.",
  [DQ, PD], [("definitions", DQ), ("friction factors", PD)])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P: f.write(json.dumps(d) + "\n")
    print(len(P), "properties")
