"""Knob settings for gen.make, by theme."""

PLAIN = dict(p_derive=0.0, p_dim=0.0, p_field_dim=0.0)
DENSE_DERIVE = dict(p_derive=0.7, p_dim=0.25, depth=3, derive_tries=6)
FIELD_DERIVE = dict(p_derive=0.6, p_field_dim=0.3, fields=(1, 4), p_enum=0.5, p_own_position=0.5)
OVERLAP = dict(p_overlap=0.6, p_alt=0.3, p_group=0.4, p_derive=0.5, p_misalign=0.2)
DROPS = dict(odd_sizes=0.2, p_size=0.6, p_empty=0.2, p_reserved=0.1)
ENUMS = dict(p_enum=0.8, p_enum_dup=0.3, p_enum_range=0.3, p_default=0.4, p_reserved=0.1, p_derive=0.4, enums=(0, 6))
WIDE = dict(peripherals=(3, 7), rcs=(2, 6), p_derive=0.5)
DIMS = dict(p_dim=0.5, p_field_dim=0.4, fields=(0, 2), depth=2, p_derive=0.15, max_dim=4, peripherals=(1, 3), rcs=(1, 3),
            p_enum=0.1)
SIZES = dict(p_size=0.5, depth=3, p_cluster=0.45, p_derive=0.4, sizes=(8, 16, 32, 64, 128), rcs=(1, 3))
NASTY = dict(text="nasty", p_desc=0.8, p_misc=0.7)

DIMLESS = dict(p_dim=0.4, p_field_dim=0.4, p_derive=0.6, p_dimless=0.7, p_own_position=0.6, derive_tries=8, rcs=(2, 5), fields=(0, 3),
               peripherals=(1, 3), depth=1, p_enum=0.1)

ALL = [{}, DENSE_DERIVE, FIELD_DERIVE, OVERLAP, DROPS, ENUMS, WIDE, DIMS, SIZES, NASTY, DIMLESS]


def mixed(rng):
    """A random profile, sometimes two blended."""
    k = dict(rng.choice(ALL))
    if rng.random() < 0.3:
        k.update(rng.choice(ALL))
    return k
