"""All verification units, in dependency order."""
import units_common   # noqa
import units_field   # noqa
import units_poly  # noqa
import units_pp  # noqa
import units_poplar  # noqa
import units_xof  # noqa
import units_flp  # noqa
import units_bb  # noqa
import units_prio3  # noqa
import units_prio3i  # noqa
import units_e2e  # noqa
import units_orch  # noqa
import units_idpf  # noqa
import units_poplar1  # noqa
import units_pure  # noqa
