import prop_core  # noqa: F401
import prop_est  # noqa: F401
import prop_io  # noqa: F401
import prop_adj  # noqa: F401
import prop_flow  # noqa: F401
