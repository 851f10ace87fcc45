from . import p_helpers, p_core, p_misc, p_prims, p_more
