"""The families of analysed inputs by name; each yields witnesses for the comparison, given a context."""
import random
from . import adaptive, corpus, corpus_cross, corpus_display, corpus_foreign, corpus_functions, corpus_generics, corpus_hygiene, corpus_macro


class Ctx:
    def __init__(self, seed, tier):
        self.seed, self.tier = seed, tier

    @property
    def thorough(self):
        return self.tier == "thorough"

    def rng(self, name):
        return random.Random("%s/%s" % (self.seed, name))

    def n(self, quick, thorough):
        return thorough if self.thorough else quick


FAM = {}


def fam(f):
    FAM[f.__name__[2:]] = f
    return f


# ---- roles of fields
@fam
def f_one_field(c): return corpus.fam_one_field()
@fam
def f_two_fields(c): return corpus.fam_two_fields()
@fam
def f_many_fields(c): return corpus.fam_many_fields(c.rng("many"), c.n(300, 6000))
@fam
def f_enums(c): return corpus.fam_enums(c.rng("enums"), c.n(300, 5000))
@fam
def f_transparent(c): return corpus.fam_transparent()
@fam
def f_user_display(c): return corpus.fam_user_display()
@fam
def f_empty(c): return corpus.fam_empty()
@fam
def f_lookalikes(c): return corpus.fam_lookalikes()
@fam
def f_spellings(c): return corpus.fam_spellings()

@fam
def f_foreign(c): return corpus_foreign.fam_foreign()


# ---- messages
@fam
def f_specs(c): return corpus_display.fam_specs()
@fam
def f_specs_extra(c): return corpus_display.fam_specs_extra()
@fam
def f_repeats(c): return corpus_display.fam_repeats()
@fam
def f_literals(c): return corpus_display.fam_literals()
@fam
def f_names(c): return corpus_display.fam_names()
@fam
def f_positions(c): return corpus_display.fam_positions()
@fam
def f_named_args(c): return corpus_display.fam_named_args()
@fam
def f_exprs(c): return corpus_display.fam_exprs()
@fam
def f_captures(c): return corpus_display.fam_captures()
@fam
def f_contexts(c): return corpus_display.fam_contexts()
@fam
def f_functions(c): return corpus_functions.fam_functions()
@fam
def f_enum_level(c): return corpus_display.fam_enum_level()
@fam
def f_self(c): return corpus_display.fam_self()
@fam
def f_big_enums(c): return corpus_display.fam_big_enums()
@fam
def f_random_display(c): return corpus_display.fam_random_display(c.rng("rd"), c.n(1500, 30000))


# ---- generics
@fam
def f_bounds(c): return corpus_generics.fam_bounds()
@fam
def f_grammar(c): return corpus_generics.fam_grammar()
@fam
def f_source_bounds(c): return corpus_generics.fam_source_bounds()
@fam
def f_generic_headers(c): return corpus_generics.fam_generic_headers()
@fam
def f_generic_random(c): return corpus_generics.fam_generic_random(c.rng("gr"), c.n(1200, 20000))


# ---- macro_rules
@fam
def f_macro(c): return corpus_macro.fam_macro(c.rng("macro"), c.n(1000, 20000))
@fam
def f_macro_fixed(c): return corpus_macro.fam_macro_fixed()
@fam
def f_macro_operands(c): return corpus_macro.fam_macro_operands()


# ---- everything at once
@fam
def f_cross(c): return corpus_cross.fam_cross(c.rng("cross"), c.n(1800, 30000))
@fam
def f_wide(c): return corpus_cross.fam_wide(c.rng("wide"), c.n(80, 2000))
@fam
def f_harvest_names(c): return corpus_cross.fam_harvest_names()
@fam
def f_harvest_texts(c): return corpus_cross.fam_harvest_texts()
@fam
def f_harvest_sizes(c): return corpus_cross.fam_harvest_sizes()
@fam
def f_harvest_cross(c): return corpus_cross.fam_harvest_cross(c.rng("hcross"), c.n(1000, 20000))


# ---- surroundings
@fam
def f_scopes(c): return corpus_hygiene.fam_scopes()
@fam
def f_field_names(c): return corpus_hygiene.fam_field_names()
@fam
def f_captured(c): return adaptive.fam_captured(c.rng("captured"), c.n(40, 400))


ROLES = ["one_field", "two_fields", "many_fields", "enums", "transparent", "user_display", "empty", "lookalikes", "spellings", "foreign"]
MESSAGES = ["specs", "specs_extra", "repeats", "literals", "names", "positions", "functions", "enum_level", "self", "big_enums", "random_display"]
ARGS = ["named_args", "exprs", "contexts"]
GENERICS = ["bounds", "grammar", "source_bounds", "generic_headers", "generic_random"]
MACRO = ["macro_fixed", "macro", "macro_operands"]
CROSS = ["cross", "wide", "harvest_sizes", "harvest_cross"]
HARVEST = ["harvest_names", "harvest_texts"]
SURROUND = ["scopes", "field_names", "captured"]
ALL = ROLES + MESSAGES + ARGS + GENERICS + MACRO + CROSS + HARVEST + SURROUND
