"""Call contexts per module."""
from . import t_dft, t_fir, t_conv, t_interp, t_mc  # noqa
from . import t_iir  # noqa
from . import t_sos  # noqa
from . import t_noise  # noqa
from . import t_util  # noqa
from . import t_fit  # noqa
from . import t_signal  # noqa
