NA = []


def A(files, *mech, **kw):
    d = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    d.update(kw)
    return d


def Q(text, *over):
    return {"over": list(over) or ["programs"], "text": text}


PROPS = [
    {
        "id": "W01",
        "title": "Only identical quantity types can be added, subtracted or compared",
        "statement": "Adding, subtracting, taking the remainder of, or comparing two quantities (including the compound-assignment forms) type-checks only when both have the same dimension, "
        "the same scale, the same storage type and the same brand, and the result has that same type. A quantity never silently converts to another type or to a bare number in these operations. "
        "This holds for every dimension, scale, brand and all fourteen storage types, on stable and with generic const expressions enabled.",
        "quantifier": Q("for every pair of quantity types and every user program", "programs", "configurations"),
        "why_tests_cant": "A compile-fail test samples one wrong combination; the claim is that no impl anywhere accepts any of the infinitely many wrong ones.",
        "anchors": A(["src/arithmetic.rs", "src/quantity.rs", "src/api.rs"], ("operator impls", "src/arithmetic.rs"), ("Quantity type", "src/quantity.rs"), ("comparison impl", "src/api.rs")),
        "check": {"technique": "trait-impl inventory over the type-checked crate", "note": "Universal over types: every impl's operand types are compared parametrically. Trusts rustc's trait system."},
    },
    {
        "id": "W02",
        "title": "Multiplication and division add and subtract every exponent",
        "statement": "The type of a product (quotient) of two quantities has, for each of the eight dimensions and four scale factors, the sum (difference) of the operands' exponents; "
        "multiplying or dividing by a bare number leaves them unchanged, and a number divided by a quantity negates them all. Storage type and brand are preserved. "
        "On stable this holds for every exponent from -200 to 200.",
        "quantifier": Q("for every pair of operand types, storage type, brand and exponent in range", "programs", "configurations"),
        "why_tests_cant": "Tests multiply a few named units; a wrong position, a wrong table entry or a wrong storage type only shows for particular exponents.",
        "anchors": A(["src/arithmetic.rs", "whippyunits-core/src/num.rs"], ("product and quotient types", "src/arithmetic.rs"), ("stable exponent arithmetic tables", "whippyunits-core/src/num.rs")),
        "check": {"technique": "type-level witnesses evaluated by the trait solver", "note": "Exhaustive over storage types, operators, positions and the stable exponent table; trusts rustc."},
    },
    {
        "id": "W03",
        "title": "Operators compute exactly the primitive operation on the stored numbers",
        "statement": "For every operator between quantities or between a quantity and a number, including the assignment forms and negation, the stored number of the result is exactly the "
        "corresponding primitive operation applied to the stored numbers of the operands, with no scaling, clamping, special case or extra check. Comparison operators agree with comparing "
        "the stored numbers, including unordered floating-point values. Constructing, copying and cloning keep the stored number.",
        "quantifier": Q("for every operand value, storage type and brand", "inputs", "configurations"),
        "why_tests_cant": "Tests use a few values of mostly f64; a special case for one storage type, one sign or NaN never appears in them.",
        "anchors": A(["src/arithmetic.rs", "src/api.rs", "src/quantity.rs"], ("operator bodies", "src/arithmetic.rs"), ("comparison body", "src/api.rs"), ("construction", "src/quantity.rs")),
        "check": {"technique": "interprocedural MIR value-flow analysis", "note": "All values at once: the returned term is compared structurally. Trusts rustc's MIR and the driver."},
    },
    {
        "id": "W04",
        "title": "Float rescaling multiplies by the exact ratio of the two scales",
        "statement": "Rescaling a float quantity between scales of the same dimension multiplies the stored number by exactly the ratio of the scales (the product of the differing powers of 2, 3, 5 and pi), "
        "to within 1e-12 relative for f64 and 1e-6 for f32 of the factor, for every pair of scale exponents, including ones beyond the lookup tables. The dimension, storage type and brand do not change. "
        "This holds for rescale(), rescale_f64(), rescale_f32() and the rescale! macro.",
        "quantifier": Q("for every pair of scales, every stored number and brand", "inputs", "programs", "configurations"),
        "why_tests_cant": "Tests rescale between a few named units; a wrong table entry, sign or threshold only shows for particular exponents.",
        "anchors": A(["src/scale_conversion.rs", "proc-macros/src/pow_lookup_macro.rs", "src/api.rs"], ("aggregate scale factor", "src/scale_conversion.rs"), ("power lookup tables", "proc-macros/src/pow_lookup_macro.rs"), ("rescale entry points", "src/api.rs")),
        "check": {"technique": "interprocedural MIR value-flow analysis", "note": "All stored numbers at once; scales enumerated along each prime axis beyond the tables and in combinations. Rounding of the factor within the stated bound."},
    },
    {
        "id": "W05",
        "title": "Integer rescaling is the exact ratio truncated toward zero",
        "statement": "Rescaling an integer quantity yields the stored number times the exact rational ratio of the scales (with pi as 355/113), truncated toward zero, for all twelve integer storage types and every sign. "
        "No intermediate value wraps around, whatever the stored number: when the product with the numerator does not fit 128 bits the division is done first, and the conversion panics "
        "only when the result does not fit the storage type. Ratios whose reduced numerator or denominator exceed 128 bits are outside the claim.",
        "quantifier": Q("for every stored integer, storage type, brand and pair of scales", "inputs", "programs", "configurations"),
        "why_tests_cant": "Overflow and rounding depend on the magnitude of the number and on the ratio; tests use small numbers and powers of ten.",
        "anchors": A(["src/scale_conversion.rs", "src/api.rs"], ("integer rescale", "src/scale_conversion.rs"), ("rescale_i* entry points", "src/api.rs")),
        "check": {"technique": "interval and polynomial abstract interpretation of MIR paths", "note": "Every path of the conversion is judged for the whole interval of inputs it accepts; scales are enumerated."},
    },
    {
        "id": "W06",
        "title": "Only dimensionless quantities turn into bare numbers, at unit scale",
        "statement": "A quantity converts to or from a bare number (From/Into) only if it is unbranded and dimensionless or a pure power of angle, and the number is the stored one rescaled to unity scale. "
        "The only other implicit conversions drop the angle exponent of a compound quantity and keep its scale, other dimensions, storage type and stored number. No other conversion impl exists. "
        "A conversion to a different numeric type goes through f64 and an as-cast.",
        "quantifier": Q("for every quantity type, number type and stored value", "programs", "inputs", "configurations"),
        "why_tests_cant": "The claim excludes every other impl and covers each of several hundred generated ones; tests call a few.",
        "anchors": A(["src/quantity.rs", "proc-macros/src/generate_all_radian_erasures_macro.rs", "proc-macros/src/generate_all_dimensionless_cross_type_macro.rs"], ("generated erasure impls", "proc-macros/src/generate_all_radian_erasures_macro.rs"), ("cross-type erasure", "proc-macros/src/generate_all_dimensionless_cross_type_macro.rs")),
        "check": {"technique": "trait-impl inventory and MIR value-flow analysis", "note": "Inventory of all From impls over the type-checked crate, and the body of each. Cross-type integer values beyond 2^53 lose precision (documented)."},
    },
    {
        "id": "W07",
        "title": "Every unit in the catalogue has the amount and zero point of its definition",
        "statement": "For every unit the library defines, its dimension, its size (scale times conversion factor) and its zero offset equal the definition of the unit of that name in the SI, NIST SP 811, IAU and "
        "customary standards, to within 1e-12 relative (1e-9 for the parsec, 1e-7 for the year; a month is 30 days). Well-known symbols stand for the unit they stand for in those standards. A unit that is converted on "
        "declaration is stored at the power of ten nearest its size.",
        "quantifier": Q("for every unit of the catalogue", "programs", "configurations"),
        "why_tests_cant": "Tests check a dozen units, several of them against the same constant; a wrong digit in any of the others goes unnoticed.",
        "anchors": A(["whippyunits-core/src/units.rs", "whippyunits-core/src/dimensions.rs"], ("unit constants", "whippyunits-core/src/units.rs"), ("lists per dimension", "whippyunits-core/src/dimensions.rs")),
        "check": {"technique": "compile-time evaluation of the unit tables vs. an independent reference", "note": "Exhaustive over the catalogue; the reference table wv/oracle.py was written from the standards. Units without reference data are listed in the evidence."},
    },
    {
        "id": "W08",
        "title": "The dimension table is consistent and means what its names say",
        "statement": "Each listed dimension has the exponents of the physical quantity it names and of its own symbol; no two have the same exponents or name; every unit listed in it has exactly its exponents; its first unit "
        "(the one that takes prefixes) is the plain metric SI unit; and the basis tables list the eight base dimensions and units in exponent order.",
        "quantifier": Q("for every dimension of the table", "programs", "configurations"),
        "why_tests_cant": "Dimensions without tests of their own (viscosity, inductance, flux) can carry any exponents.",
        "anchors": A(["whippyunits-core/src/dimensions.rs", "whippyunits-core/src/units.rs"], ("dimension constants", "whippyunits-core/src/dimensions.rs"), ("base units", "whippyunits-core/src/units.rs")),
        "check": {"technique": "compile-time evaluation of the dimension tables vs. an independent reference", "note": "Exhaustive over the table."},
    },
    {
        "id": "W09",
        "title": "The prefix table is the SI prefix table",
        "statement": "The library lists each of the 24 SI prefixes exactly once, with its SI name, symbol and power of ten; the accessors return the same values; and the only alternative symbol is u for micro.",
        "quantifier": Q("for every prefix", "programs", "configurations"),
        "why_tests_cant": "Tests check that the table agrees with itself, never that pico is 10^-12.",
        "anchors": A(["whippyunits-core/src/prefix.rs"], ("prefix constants and accessors", "whippyunits-core/src/prefix.rs")),
        "check": {"technique": "compile-time evaluation of the prefix table vs. the SI table", "note": "Exhaustive."},
    },
    {
        "id": "W10",
        "title": "Every spelling of a unit means the same amount at every entry point",
        "statement": "For every symbol, alternative symbol and name of every unit, alone and with every SI prefix the unit takes, quantity!, unit!, the declarator methods (5.0.meters()), the type aliases (Meter) "
        "and the literal macros all yield a quantity of that unit's dimension and scale and of the requested storage type and brand, and store exactly the given number times the unit's conversion factor plus its zero "
        "offset (the number itself for units that need no conversion). An exact symbol or name takes precedence over a prefixed reading, and no spelling is ambiguous.",
        "quantifier": Q("for every spelling, entry point and stored number", "inputs", "programs", "configurations"),
        "why_tests_cant": "There are some 3500 spellings and five entry points generated by separate code; tests try a few dozen.",
        "anchors": A(["proc-macros/src/quantity_macro.rs", "proc-macros/src/unit_macro.rs", "proc-macros/src/generate_default_declarators_macro.rs", "proc-macros/src/utils/literal_macros.rs", "src/default_declarators.rs", "whippyunits-core/src/parser.rs"],
                     ("quantity!", "proc-macros/src/quantity_macro.rs"), ("declarators", "proc-macros/src/generate_default_declarators_macro.rs"), ("literals", "proc-macros/src/utils/literal_macros.rs"), ("unit lookup", "whippyunits-core/src/parser.rs")),
        "check": {"technique": "type-level witnesses and interprocedural MIR value-flow analysis", "note": "All spellings and entry points, all stored numbers at once. Meanings are those of the unit table (judged by W07-W09)."},
    },
    {
        "id": "W11",
        "title": "value! is the inverse of quantity! and reads only its own dimension and brand",
        "statement": "For every spelling S of a unit, value!(q, S) of a quantity stored at any scale of S's dimension is (stored number times the ratio of the scales, minus S's zero offset) divided by S's conversion "
        "factor; so value!(quantity!(x, S), S) gives back x up to rounding. Integer reads are that number after the integer rescale, truncated. Reading in a unit of another dimension, with another storage type, or a branded "
        "quantity without naming its brand does not compile.",
        "quantifier": Q("for every spelling, source scale and stored number", "inputs", "programs", "configurations"),
        "why_tests_cant": "A unit whose inverse is wrong is only seen by reading in that unit; tests read in a handful.",
        "anchors": A(["proc-macros/src/value_macro.rs", "src/api.rs"], ("value!", "proc-macros/src/value_macro.rs"), ("rescale", "src/api.rs")),
        "check": {"technique": "MIR value-flow analysis and compile-fail witnesses", "note": "All spellings; source scales: the unit's own and three others. All ordered pairs of dimensions are witnessed as rejected."},
    },
    {
        "id": "W12",
        "title": "Declarator modules store every amount in their own base units",
        "statement": "In a module made by define_unit_declarators! with eight base units, quantity!(v, U), the Local* declarator methods and the unit literals have the type of U's dimension at the scale that is the product of the module's base units "
        "(each to U's exponent), carry the module's brand, and store v's declared amount expressed in that unit: nothing but the unit of storage changes. local_unit!(U) is that type. This holds for every spelling of every unit and for compound "
        "expressions, for every storage type the module supports. A module with only a brand stores at the declared scale. A base-unit name that is not a unit of a base dimension does not compile.",
        "quantifier": Q("for every choice of exact base units, unit expression, stored value and storage type", "programs", "inputs", "configurations"),
        "why_tests_cant": "Tests use one or two base-unit sets and a few units; a base unit ignored in compound expressions changes the stored number only for particular sets.",
        "anchors": A(["proc-macros/src/define_unit_declarators_macro.rs", "proc-macros/src/local_unit_type_macro.rs", "proc-macros/src/utils/lift_trace.rs"],
                     ("module generation", "proc-macros/src/define_unit_declarators_macro.rs"), ("local unit types", "proc-macros/src/local_unit_type_macro.rs")),
        "check": {"technique": "type-level witnesses and MIR value flow over generated modules", "note": "Five base-unit sets (named, prefixed, non-SI, extreme) times the whole catalogue; in the quick run the prefixed spellings are judged for two of the sets. "
                  "Integer storage is judged up to the integer rescale (W05)."},
    },
    {
        "id": "W14",
        "title": "A compound unit expression means the product of its parts",
        "statement": "In a unit expression given to unit!, quantity! or value!, '*' and '.' add the dimension and scale exponents of their operands, '/' subtracts those of everything after it up to the next '/', "
        "'^n' and a trailing number (m2) multiply them by n, 10^n contributes a power of ten and 1 nothing; conversion factors multiply, divide and exponentiate alike. quantity! and value! of the expression are "
        "inverse to each other. Conversion units with a zero offset are excluded, as are exponents that overflow 16 bits.",
        "quantifier": Q("for every unit expression", "programs", "configurations"),
        "why_tests_cant": "The set of expressions is infinite; precedence, sign and exponent mistakes show only for particular nestings.",
        "anchors": A(["whippyunits-core/src/parser.rs", "whippyunits-core/src/dimension_exponents.rs", "whippyunits-core/src/scale_exponents.rs", "proc-macros/src/quantity_macro.rs"],
                     ("unit expression parser and evaluator", "whippyunits-core/src/parser.rs"), ("exponent arithmetic", "whippyunits-core/src/dimension_exponents.rs")),
        "check": {"technique": "inductive MIR value-flow analysis plus enumerated type-level witnesses",
                  "note": "The inductive step holds for any sub-expressions; the leaves, the parser and the macro glue are witnessed on 2600 (thorough: 6000) expressions covering every form, every unit and random nestings."},
    },
    {
        "id": "W15",
        "title": "What is not a unit is rejected at compile time",
        "statement": "unit!, quantity!, value! and local_unit! do not compile when any identifier in the unit expression is not a spelling of a unit of the catalogue (a typo, a wrong case, a prefix on a unit that takes none, two prefixes), "
        "nor when the expression contains a number other than 1 and powers of 10, a fractional or overflowing exponent or another operator. unit! does not compile for a unit that is converted by a factor, anywhere in the expression.",
        "quantifier": Q("for every identifier and unit expression", "programs", "configurations"),
        "why_tests_cant": "The claim is about everything outside the catalogue; an identifier silently read as another unit or as 1 changes amounts.",
        "anchors": A(["proc-macros/src/unit_macro.rs", "proc-macros/src/quantity_macro.rs", "proc-macros/src/value_macro.rs", "proc-macros/src/local_unit_type_macro.rs", "proc-macros/src/utils/shared_utils.rs", "whippyunits-core/src/parser.rs"],
                     ("unknown units", "proc-macros/src/utils/shared_utils.rs"), ("strict mode", "whippyunits-core/src/parser.rs")),
        "check": {"technique": "compile-fail witnesses", "note": "All one- and two-letter identifiers, every prefix on every unit that takes none, case, plural and typo variants of the catalogue, and each in eleven compound forms. Longer arbitrary identifiers are sampled."},
    },
    {
        "id": "W16",
        "title": "A deserialized quantity is the amount its text says, or an error",
        "statement": "Reading a quantity from a number and a unit text (Deserialize, deserialize_core_quantity, deserialize_core, from_json!, from_string!) yields Ok only if the text is a well-formed unit expression whose every unit is known and "
        "whose dimension is the target's; the stored value is then the given number times the unit's conversion factor plus its zero offset, rescaled from the unit's scale to the target's scale. "
        "Otherwise, and for a document without exactly one value and one unit, an error is returned, never a panic, and a well-formed text of the right dimension is never refused.",
        "quantifier": Q("for every number, unit text, document and target type", "inputs", "programs", "configurations"),
        "why_tests_cant": "Texts are open-ended and the conversion depends on the pair of scales; tests read a handful of texts of well-known units.",
        "anchors": A(["src/serialization.rs", "whippyunits-core/src/parser.rs"], ("deserialization", "src/serialization.rs"), ("run-time unit parser", "whippyunits-core/src/parser.rs")),
        "check": {"technique": "interprocedural MIR value-flow analysis", "note": "Every path of each entry point for 24 target types, any number and any text; documents of up to three entries. Splitting \"5 m\" and serde_json itself are taken as given."},
    },
    {
        "id": "W17",
        "title": "A serialized quantity names its own amount and dimension",
        "statement": "Serialize and serialize_to_json write exactly one number and one unit text, and the number in that unit is the amount of the quantity: reading the text with unit! gives the quantity's dimension, "
        "and the number is the stored value rescaled from the quantity's scale to that unit's scale. This holds for every dimension, scale, storage type and brand; serializing does not panic.",
        "quantifier": Q("for every quantity type and stored value", "programs", "inputs", "configurations"),
        "why_tests_cant": "The unit text is built from the type; there is one text per dimension and scale and tests look at a few, with the scale of base units only.",
        "anchors": A(["src/serialization.rs", "src/print/prettyprint.rs"], ("serialization", "src/serialization.rs")),
        "check": {"technique": "MIR value-flow analysis and type-level witnesses", "note": "About 250 dimension and scale combinations with any stored number; the text each writes is then compiled as unit!(text)."},
    },
    {
        "id": "W18",
        "title": "Display, Debug and generated unit names show the true unit and value",
        "statement": "The unit name generated for a dimension and scale (generate_unit_literal, get_storage_unit_name; shown by Display, Debug and the tools, short and long form) denotes exactly that unit: read with the catalogue's symbols, names and prefixes, its dimension is the one given and its scale is the one given, "
        "or, when the scale is no power of ten and no unit's, the factor in front of it is right to three digits. Display and Debug of a quantity show the stored value to at least five significant digits (zero, tiny and infinite ones included), then that name, the storage type and the brand if there is one; "
        "Debug's brackets list the type's scale and dimension exponents. Neither panics.",
        "quantifier": Q("for every quantity type and stored value", "programs", "inputs", "configurations"),
        "why_tests_cant": "There is one name per dimension and scale, put together from prefixes, powers and a table; tests look at a few common units.",
        "anchors": A(["whippyunits-core/src/storage_unit.rs", "src/print/prettyprint.rs", "src/print/display_traits.rs"], ("unit names", "whippyunits-core/src/storage_unit.rs"), ("Display and Debug", "src/print/display_traits.rs")),
        "check": {"technique": "MIR constant propagation and value-flow analysis", "note": "About 6,300 dimension and scale pairs (25,000 thorough): every dimension of the catalogue, powers -4 to 4 of each base dimension and mixed ones, with powers of ten and every unit's scale, its inverse, powers and products. Display and Debug for 30 types with any value."},
    },
    {
        "id": "W19",
        "title": "fmt(unit) shows the same amount in the unit asked for, or no number",
        "statement": "Formatting q.fmt(u) writes a number only if u is a well-formed unit expression of known units with q's dimension; the number is then q's stored value rescaled to u's scale, less u's zero offset, divided by u's conversion factor, "
        "and it is followed by u. For any other text an error message without a number is written; formatting never panics. This holds for every quantity type and value.",
        "quantifier": Q("for every quantity type, value and unit text", "inputs", "programs", "configurations"),
        "why_tests_cant": "A unit is a run-time text here: nothing checks it at compile time, and tests format a few quantities in a few units.",
        "anchors": A(["src/quantity.rs", "whippyunits-core/src/parser.rs"], ("QuantityFormatter", "src/quantity.rs"), ("run-time unit parser", "whippyunits-core/src/parser.rs")),
        "check": {"technique": "interprocedural MIR value-flow analysis", "note": "Every path of the formatter for 24 target dimensions and scales, any text and value."},
    },
    {
        "id": "W20",
        "title": "Exponent vectors add, subtract, negate and scale axis by axis",
        "statement": "In whippyunits-core, the type-level exponents TypeDimensionExponents add and subtract on every one of the eight axes, and the type-level integers N<a> + N<b>, N<a> - N<b> and -N<a> are "
        "N<a+b>, N<a-b> and N<-a> (on stable for results and operands from -200 to 200). The value-level counterparts (DynDimensionExponents plus, times an integer, negated; ScaleExponents multiplied, raised, negated) "
        "do the same for every input and panic only where an i16 overflows. A type's value() is the list of its parameters, is_zero holds for the zero vector alone, log10 answers exactly for powers of ten, "
        "and the basis dimensions, their constants, symbols and text form agree on the axis order M L T I Θ N J A.",
        "quantifier": Q("for every pair of exponent vectors", "inputs", "programs", "configurations"),
        "why_tests_cant": "The tests add two vectors; a wrong axis or a wrong operator in one of the macro-generated impls only shows for other exponents.",
        "anchors": A(["whippyunits-core/src/dimension_exponents.rs", "whippyunits-core/src/scale_exponents.rs", "whippyunits-core/src/num.rs"], ("exponent impl macros", "whippyunits-core/src/dimension_exponents.rs"), ("scale exponents", "whippyunits-core/src/scale_exponents.rs"), ("type-level integers", "whippyunits-core/src/num.rs")),
        "check": {"technique": "types computed by the trait solver; MIR value flow of the value-level operations", "note": "Universal for the value level and the integer table; sampled vectors with distinct entries for the type-level vectors."},
    },
    {
        "id": "W21",
        "title": "A dimension trait admits exactly the quantities of the dimensions it lists",
        "statement": "Each of the eight atomic dimension traits, and each trait made by define_generic_dimension!(Name, e1, ..), is implemented for unbranded quantities of every scale and every value type whose dimension is one of the listed ones, "
        "and for nothing else; Unit is the quantity itself. An expression means what the documentation says: dimension names and the symbols M L T I Θ N J A, powers (X^n or Xn), products with * or ., one or more divisions with "
        "everything after the sign in the denominator, parentheses, and 1. An unknown dimension, another number or a malformed expression does not compile.",
        "quantifier": Q("for every dimension expression, scale and value type", "programs", "configurations"),
        "why_tests_cant": "A function bounded by a dimension trait promises a dimension for every caller; tests call it with a few right units and cannot call it with a wrong one that compiles.",
        "anchors": A(["proc-macros/src/define_generic_dimension_macro.rs", "src/dimension_traits.rs"], ("dimension expressions", "proc-macros/src/define_generic_dimension_macro.rs"), ("atomic traits", "src/dimension_traits.rs")),
        "check": {"technique": "trait-impl inventory of the expanded, type-checked program", "note": "Per expression exact (all impls of the trait are listed and compared); expressions enumerated: every name and symbol in every form, all pairs of axes, 500 (thorough 3,000) nested ones."},
    },
    {
        "id": "W13",
        "title": "Brands never mix and no operation changes a brand",
        "statement": "Quantities of different brands (no brand being the brand ()) can not be added, multiplied, compared, assigned, converted or rescaled into each other, in any storage type. Every operator, conversion, rescale and "
        "public function takes and returns quantities of one brand, the same for all of them; only Quantity::new and deserialization make a quantity whose brand the caller names. unit! and quantity! give the brand they are told, and () "
        "when told none. A branded dimensionless quantity is not a number: it does not turn into one by itself.",
        "quantifier": Q("for every brand, storage type, dimension and scale", "programs", "configurations"),
        "why_tests_cant": "Brands separate values that otherwise have the same type; one impl or signature that mixes them lets some program through, and tests cannot run programs that must not compile.",
        "anchors": A(["src/arithmetic.rs", "src/quantity.rs", "src/api.rs", "src/serialization.rs"], ("operator and conversion impls", "src/arithmetic.rs"), ("rescale", "src/api.rs"), ("brand argument of the macros", "proc-macros/src/unit_macro.rs")),
        "check": {"technique": "impl and signature inventory of the type-checked library, compile-fail witnesses", "note": "Universal over impls and public functions (all are listed); mixing programs: every operator and conversion for 5 storage types and 4 brand pairs; macros over every exact unit name."},
    },
    {
        "id": "W22",
        "title": "A quantity costs what its number costs, and works without std or a heap",
        "statement": "A quantity has the size, alignment and thread-safety of its number, whatever its brand, has no drop glue, and is Copy if the number is and the brand is Clone. With all features off the library type-checks in a no_std program, and no arithmetic, comparison, "
        "rescale, literal, unit or quantity macro, declarator method or dimension trait reaches a function of std or alloc. Display and Debug exist exactly when alloc (or a feature that implies it) is on; Serialize, Deserialize and fmt "
        "exactly when serde is; the library type-checks under every combination of its features, on stable and with generic const expressions.",
        "quantifier": Q("for every feature combination, storage type, brand and core operation", "configurations", "programs"),
        "why_tests_cant": "The tests run with default features on a hosted target, where a heap allocation or a std call in a core operation is invisible.",
        "anchors": A(["src/lib.rs", "src/quantity.rs", "src/arithmetic.rs", "src/api.rs", "Cargo.toml"], ("feature gates", "src/lib.rs"), ("layout", "src/quantity.rs"), ("rescale", "src/api.rs")),
        "check": {"technique": "effect analysis over the reachable MIR of a no_std program, layout constants, impl inventory per feature set", "note": "All 14 storage types and 3 brands, every exact unit name and declarator, 6 feature sets on 2 compilers. Known findings: std and alloc are still linked through whippyunits-core's dependencies."},
    },
    {
        "id": "W23",
        "title": "The LSP proxy passes every message on, correctly framed, rewriting only text",
        "statement": "LspProxy::process_outgoing returns the message it is given. process_incoming never fails: it returns the message it is given, or, only when the payload was found to contain a quantity type and its result was a hover or "
        "an inlay hint that a processor rewrote, a frame `Content-Length: n` CRLF CRLF body with n the number of bytes of the body. The body is the same message: jsonrpc, id, method, params and error are as received, result is what the "
        "processor made of the received result, no member is added and members the proxy does not know stay. Improving a hover changes only the texts of its items: kind, language, range, unknown members and the number and order of items stay as they were. "
        "Processing an inlay-hint response writes only the label, and for a resolved hint the textEdits, of hints found to name a quantity type: no hint is dropped, added or moved and no other member changes. "
        "The pretty printer's process_line never fails either, and gives a line back as it is unless it found `Quantity` in it.",
        "quantifier": Q("for every message text and every path through the proxy's message processing", "inputs"),
        "why_tests_cant": "The tests feed a few recorded messages and look at the text; a lost id, a wrong byte count or an error return shows only for ids, texts and results they do not contain, and then desynchronizes the editor.",
        "anchors": A(["lsp-proxy/src/lib.rs", "lsp-proxy/src/lsp_structures.rs", "lsp-proxy/src/hover_processor.rs", "lsp-proxy/src/inlay_hint_processor.rs", "whippyunits-pretty/src/rustc_pretty.rs"], ("message processing", "lsp-proxy/src/lib.rs"), ("members of a message", "lsp-proxy/src/lsp_structures.rs"), ("hover contents", "lsp-proxy/src/hover_processor.rs"), ("inlay hints", "lsp-proxy/src/inlay_hint_processor.rs"), ("lines", "whippyunits-pretty/src/rustc_pretty.rs")),
        "check": {"technique": "MIR value-flow analysis of every path of the message processing for an unknown message", "note": "Universal over message texts; the text scanners, detection of quantity types and serde_json are opaque calls. Not covered: panics inside the text scanners, what a converted label says, what closures passed to iterators do, and the read and write loops of the binary."},
    },
    {
        "id": "W24",
        "title": "Rewritten tool text names the same type the compiler named",
        "statement": "Where the LSP proxy, rustc-pretty or the pretty printer for inlay hints replaces a Quantity<..> type in a text, the replacement names the unit of exactly that scale and dimension, and everything around it stays as it was.",
        "quantifier": Q("for every text that contains quantity types", "inputs"),
        "why_tests_cant": "The texts come from rustc and rust-analyzer in any combination of nesting, truncation and inference placeholders.",
        "anchors": A(["lsp-proxy/src/unit_formatter.rs", "lsp-proxy/src/inlay_hint_processor.rs", "whippyunits-pretty/src"], ("text rewriting", "lsp-proxy/src/unit_formatter.rs")),
        "na": "the rewriting is a chain of character scanners and regular expressions over texts of unbounded length whose grammar (rustc's type printing) is not in the repository: what they do to a text depends on the characters at run time, and a static argument over the scanners' loops says nothing about it short of executing them; the unit naming they end in is covered by W18",
    },
]
