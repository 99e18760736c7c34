From edc071720aedb8d103d3a5d31beb1e2f4a36ef79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 01/43] fix: drop the time dimension of the stored states when
 restarting a run

Output files hold the tracked storages as (time, latitude, longitude) with one
time; assigning them to the 2-D state raised ValueError, so restart: true never
worked in either direction.
---
 src/wam2layers/tracking/backtrack.py    | 2 +-
 src/wam2layers/tracking/forwardtrack.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/tracking/backtrack.py b/src/wam2layers/tracking/backtrack.py
index c81d5f7..15fd043 100644
--- a/src/wam2layers/tracking/backtrack.py
+++ b/src/wam2layers/tracking/backtrack.py
@@ -138,7 +138,7 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
     if config.restart:
         # Reload last state from existing output
         date = config.tracking_end_date
-        ds = xr.open_dataset(output_path(date, config))
+        ds = xr.open_dataset(output_path(date, config)).isel(time=0)
         output["s_track_upper_restart"].values = ds.s_track_upper_restart.values
         output["s_track_lower_restart"].values = ds.s_track_lower_restart.values
 
diff --git a/src/wam2layers/tracking/forwardtrack.py b/src/wam2layers/tracking/forwardtrack.py
index c3cf2ae..61393cb 100644
--- a/src/wam2layers/tracking/forwardtrack.py
+++ b/src/wam2layers/tracking/forwardtrack.py
@@ -141,7 +141,7 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
     if config.restart:
         # Reload last state from existing output
         date = config.tracking_start_date
-        ds = xr.open_dataset(output_path(date, config))
+        ds = xr.open_dataset(output_path(date, config)).isel(time=0)
         output["s_track_upper_restart"].values = ds.s_track_upper_restart.values
         output["s_track_lower_restart"].values = ds.s_track_lower_restart.values
 
-- 
2.43.0


From 20b61882c0097856f8d68d372cbaa31896cdaedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 02/43] fix: keep the result of fillna in stabilize_fluxes

fillna is not in place. In cells where both flux components are zero the limit
is 0/0, and the resulting NaN spread over the whole domain.
---
 src/wam2layers/tracking/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/tracking/core.py b/src/wam2layers/tracking/core.py
index ab99bda..dbda23d 100644
--- a/src/wam2layers/tracking/core.py
+++ b/src/wam2layers/tracking/core.py
@@ -154,8 +154,8 @@ def stabilize_fluxes(F, S, progress_tracker: ProgressTracker, config: Config, t)
         progress_tracker.track_stability_correction(fy_stable, fy_abs, config, t)
 
         # Get rid of any nan values
-        fx_stable.fillna(0)
-        fy_stable.fillna(0)
+        fx_stable = fx_stable.fillna(0)
+        fy_stable = fy_stable.fillna(0)
 
         # Re-instate the sign and convert back to flux instead of accumulation
         F["fx_" + level] = np.sign(fx) * fx_stable / config.timestep
-- 
2.43.0


From 16a6280259262f15419ab47b11ebee543af045dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 03/43] fix: accept day frequencies in lower case

The documentation of output_frequency uses '1d', for which xarray's cftime
rounding raises 'Invalid frequency string provided' halfway through the run.
---
 src/wam2layers/utils/calendar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wam2layers/utils/calendar.py b/src/wam2layers/utils/calendar.py
index 5246a64..c290d73 100644
--- a/src/wam2layers/utils/calendar.py
+++ b/src/wam2layers/utils/calendar.py
@@ -91,9 +91,11 @@ def fix_deprecated_frequency(freq: str) -> str:
     > Deprecated since version 2.2.0: Aliases H, BH, CBH, T, S, L, U, and N are
     > deprecated in favour of the aliases h, bh, cbh, min, s, ms, us, and ns.
 
-    This fix recognizes the old format and converts it to the new one.
+    This fix recognizes the old format and converts it to the new one. Days have to
+    be spelled "D": xarray does not recognize "d" for cftime data.
     """
     deprecated_map = {
+        r"(?i)^(\d*)D$": r"\1D",
         r"(?i)^(\d*)CBH$": r"\1cbh",
         r"(?i)^(\d*)BH$": r"\1bh",
         r"(?i)^(\d*)H$": r"\1h",
-- 
2.43.0


From 18eb834dee79a59e633d721a5b0a05b66c11ff61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 04/43] fix: convert frequencies without a number to a time
 interval

pandas parses 'h' or 'D' as a frequency but not as a Timedelta, so a run with
output_frequency 'D' (or input_frequency 'h' in preprocessing) raised ValueError
when it wrote its first output.
---
 src/wam2layers/preprocessing/utils.py | 5 +++--
 src/wam2layers/tracking/io.py         | 9 ++++++---
 src/wam2layers/utils/calendar.py      | 5 +++++
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/wam2layers/preprocessing/utils.py b/src/wam2layers/preprocessing/utils.py
index 50b6bb6..b095f7d 100644
--- a/src/wam2layers/preprocessing/utils.py
+++ b/src/wam2layers/preprocessing/utils.py
@@ -3,10 +3,11 @@
 from functools import lru_cache
 
 import numpy as np
-import pandas as pd
 import xarray as xr
 from scipy.interpolate import interp1d
 
+from wam2layers.utils.calendar import frequency_to_timedelta
+
 
 def join_levels(pressure_level_data, surface_level_data):
     """Combine 3d pressure level and 2d surface level data.
@@ -186,7 +187,7 @@ def accumulation_to_flux(data, input_frequency):
     that the times should be shifted. A good fix for this is welcome.
     """
     density = 1000  # [kg/m3]
-    timestep = pd.Timedelta(input_frequency)
+    timestep = frequency_to_timedelta(input_frequency)
     nseconds = timestep.total_seconds()
 
     fluxdata = (density * data / nseconds).assign_attrs(units="kg m-2 s-1")
diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index ba93247..0a7afd8 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -8,14 +8,17 @@ from pathlib import Path
 from typing import Optional
 
 import numpy as np
-import pandas as pd
 import xarray as xr
 
 from wam2layers import __version__
 from wam2layers.config import Config
 from wam2layers.preprocessing.utils import add_bounds
 from wam2layers.reference.variables import DATA_ATTRIBUTES
-from wam2layers.utils.calendar import CfDateTime, round_cftime
+from wam2layers.utils.calendar import (
+    CfDateTime,
+    frequency_to_timedelta,
+    round_cftime,
+)
 from wam2layers.utils.shapefile_mask import create_mask
 
 logger = logging.getLogger(__name__)
@@ -157,7 +160,7 @@ def load_tagging_region(config: Config, t: Optional[CfDateTime] = None):
 
 def add_time_bounds(ds: xr.Dataset, t: CfDateTime, config: Config):
     """Compute the time bounds and add them to the output dataset."""
-    dt = pd.Timedelta(config.output_frequency)
+    dt = frequency_to_timedelta(config.output_frequency)
     if config.tracking_direction == "forward":
         ds["time_bnds"] = (("time", "bnds"), np.array(((t - dt, t),)))
     else:
diff --git a/src/wam2layers/utils/calendar.py b/src/wam2layers/utils/calendar.py
index c290d73..1718dfb 100644
--- a/src/wam2layers/utils/calendar.py
+++ b/src/wam2layers/utils/calendar.py
@@ -112,6 +112,11 @@ def fix_deprecated_frequency(freq: str) -> str:
     return freq
 
 
+def frequency_to_timedelta(freq: str) -> pd.Timedelta:
+    """Convert a frequency to a time interval, also without a number (e.g. "h")."""
+    return pd.Timedelta(pd.tseries.frequencies.to_offset(freq))
+
+
 def round_cftime(
     date: CfDateTime, freq: str, how: Literal["nearest", "floor", "ceil"]
 ) -> CfDateTime:
-- 
2.43.0


From efaa7c83490336747380f4ff977fd7d59ef22efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 05/43] fix: add condensation to precipitation in the CMIP
 preprocessor

Evaporation (latent heat flux) is positive upward in CMIP data, so negative
values are dew and have to be added to the precipitation, as is done for ERA5.
They were subtracted, which could also make the precipitation negative.
---
 src/wam2layers/preprocessing/cmip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/preprocessing/cmip.py b/src/wam2layers/preprocessing/cmip.py
index cd1935e..af28c03 100644
--- a/src/wam2layers/preprocessing/cmip.py
+++ b/src/wam2layers/preprocessing/cmip.py
@@ -55,7 +55,7 @@ def get_input_data(datetime: CfDateTime, config: Config):
     data["precip"] = load_cmip_var("tp", datetime, config)
     data["evap"] = load_cmip_var("e", datetime, config)
 
-    data["precip"] = np.maximum(data["precip"], 0) + np.minimum(data["evap"], 0)
+    data["precip"] = np.maximum(data["precip"], 0) - np.minimum(data["evap"], 0)
     data["evap"] = np.abs(np.maximum(data["evap"], 0))
 
     return data
-- 
2.43.0


From b19e3fbc2bcb7ab10d85df645b31e521cde95286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 06/43] fix: grid spacing of a domain whose first two columns
 span the antimeridian

A rolled domain can start at 180 E followed by 179 W; the spacing was then taken
to be 359 degrees and areas and cell widths were off by that factor.
---
 src/wam2layers/utils/grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wam2layers/utils/grid.py b/src/wam2layers/utils/grid.py
index 812eb15..70e14c5 100644
--- a/src/wam2layers/utils/grid.py
+++ b/src/wam2layers/utils/grid.py
@@ -48,6 +48,7 @@ def get_grid_info(ds):
     latitude = ds.latitude.values
     longitude = ds.longitude.values
     dx_deg = np.abs(longitude[1] - longitude[0])  # [degrees]
+    dx_deg = np.minimum(dx_deg, 360 - dx_deg)  # the antimeridian may be in between
     dy_deg = np.abs(latitude[1] - latitude[0])  # [degrees]
 
     # Calculate area TODO check this calculation!
-- 
2.43.0


From 492abafa8ba72705a5e4a2676f0923ead5e0a71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 07/43] fix: use the latitude spacing for the latitude bounds
 of grid cells

Cell areas and widths used the longitude spacing, so on grids with different
spacing in both directions (common for CMIP data) cells overlapped or had gaps.
---
 src/wam2layers/utils/grid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wam2layers/utils/grid.py b/src/wam2layers/utils/grid.py
index 70e14c5..1d782c9 100644
--- a/src/wam2layers/utils/grid.py
+++ b/src/wam2layers/utils/grid.py
@@ -52,8 +52,8 @@ def get_grid_info(ds):
     dy_deg = np.abs(latitude[1] - latitude[0])  # [degrees]
 
     # Calculate area TODO check this calculation!
-    lat_n = np.minimum(90.0, latitude + 0.5 * dx_deg)
-    lat_s = np.maximum(-90.0, latitude - 0.5 * dx_deg)
+    lat_n = np.minimum(90.0, latitude + 0.5 * dy_deg)
+    lat_s = np.maximum(-90.0, latitude - 0.5 * dy_deg)
 
     a = (
         np.pi
@@ -65,8 +65,8 @@ def get_grid_info(ds):
 
     # Calculate faces
     dy = dy_deg * dg  # [m] grid spacing in meridional direction
-    dx_n_gridcell = dx_deg * dg * np.cos((latitude + dx_deg / 2) * np.pi / 180)
-    dx_s_gridcell = dx_deg * dg * np.cos((latitude - dx_deg / 2) * np.pi / 180)
+    dx_n_gridcell = dx_deg * dg * np.cos((latitude + dy_deg / 2) * np.pi / 180)
+    dx_s_gridcell = dx_deg * dg * np.cos((latitude - dy_deg / 2) * np.pi / 180)
     dx = 0.5 * (dx_n_gridcell + dx_s_gridcell)  # [m] grid spacing in zonal direction
     return a, dy, dx[:, None]
 
-- 
2.43.0


From 144dbf3b763f111aa04ca907621f7cba869bdeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 08/43] fix: include cells on the west and east bound of a
 rolled subdomain

Bounds are inclusive for subdomains that do not cross the antimeridian, for the
latitude bounds, and for tagging regions; only rolled subdomains excluded them.
---
 src/wam2layers/tracking/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index 0a7afd8..8116ac7 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -59,10 +59,12 @@ def select_subdomain(ds: xr.Dataset, bbox: str):
         # Need to roll coordinates to maintain a continuous longitude
         # Roll the first lon that's NOT in the bbox to the front of the array
         # That way, all values that ARE in the bbox, must be contiguous.
-        in_bbox = (ds.longitude < east) | (ds.longitude > west)
+        in_bbox = (ds.longitude <= east) | (ds.longitude >= west)
         n_roll = in_bbox.argmin().item()  # first false value
         ds_rolled = ds.roll(longitude=-n_roll, roll_coords=True)
-        in_bbox = (ds_rolled.longitude < east) | (ds_rolled.longitude > west)
+        in_bbox = (ds_rolled.longitude <= east) | (
+            ds_rolled.longitude >= west
+        )
         return ds_rolled.sel(longitude=in_bbox, latitude=slice(north, south))
 
 
-- 
2.43.0


From d47984584751657b468e39c07d3515bf7e8781cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 09/43] fix: do not store error responses as downloaded data
 files

download() ignored the HTTP status, so the body of e.g. a 404 or 503 response
ended up in the target directory under the name of the requested file.
---
 src/wam2layers/download.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wam2layers/download.py b/src/wam2layers/download.py
index a55d4b1..4a84f7e 100644
--- a/src/wam2layers/download.py
+++ b/src/wam2layers/download.py
@@ -69,6 +69,7 @@ def download(url, destination, local_filename=None):
 
     logging.info(f"Downloading {local_filename}")
     with requests.get(url, stream=True) as r:
+        r.raise_for_status()
         with open(local_path, "wb") as f:
             shutil.copyfileobj(r.raw, f)
 
-- 
2.43.0


From e84f5bf90b8fb5c1f2fc8dfc62941c58da1b7303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 10/43] fix: subtract numerical gains in the reported tagging
 closure

Tracked, remaining, lost and transported water all come out of the tagged water
plus the numerical gains, so the gains have to be subtracted for a budget to
close at 100%; adding them counted them twice.
---
 src/wam2layers/utils/profiling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/utils/profiling.py b/src/wam2layers/utils/profiling.py
index 1c2ef64..df635f8 100644
--- a/src/wam2layers/utils/profiling.py
+++ b/src/wam2layers/utils/profiling.py
@@ -106,7 +106,7 @@ class ProgressTracker:
             tracked_percentage
             + in_atmos_percentage
             + lost_percentage
-            + gained_percentage
+            - gained_percentage
             + boundary_percentage
         )
 
-- 
2.43.0


From 7e40f6b3ac3d47eb5401f405b2e5bda595aa8445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 11/43] fix: make the shorthand for all ERA5 model levels work

The documented 'all' was rejected by the configuration, and the accepted 'All'
was not recognized by the preprocessor, which then failed on the string.
---
 src/wam2layers/config.py             | 2 +-
 src/wam2layers/preprocessing/era5.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/config.py b/src/wam2layers/config.py
index 5c67480..ee431ee 100644
--- a/src/wam2layers/config.py
+++ b/src/wam2layers/config.py
@@ -383,7 +383,7 @@ class Config(BaseModel):
 
     """
 
-    levels: "Union[List[int], Literal['All']]"
+    levels: "Union[List[int], Literal['All', 'all']]"
     """Which levels to use from the raw input data.
 
     A list of integers corresponding to the levels in the input data, or a
diff --git a/src/wam2layers/preprocessing/era5.py b/src/wam2layers/preprocessing/era5.py
index 513ad57..9868ebc 100644
--- a/src/wam2layers/preprocessing/era5.py
+++ b/src/wam2layers/preprocessing/era5.py
@@ -155,7 +155,7 @@ def get_edges(era5_modellevels):
     """Get the values of a and b at the edges of a subset of ERA5 modellevels."""
     a, b = load_era5_ab()
 
-    if era5_modellevels == "all":
+    if era5_modellevels in ("all", "All"):
         return a, b
 
     # With python indexing starting at 0 and 137 full levels,
@@ -180,6 +180,8 @@ def get_edges(era5_modellevels):
 def get_dp_modellevels(sp, levels):
     """Calculate pressure jump over subset of era5 modellevels."""
     a, b = get_edges(levels)
+    if levels in ("all", "All"):
+        levels = np.arange(1, len(a))
 
     # Use dummy level -1 to avoid collision with existing levels
     # first coord will be discarded anyway on taking the diff below.
-- 
2.43.0


From a2dfe1bd88df181bbbbf567dc62a76ce7052e81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 12/43] fix: visualize input data with the dates of the
 configuration

The tagging dates are cftime objects, which pd.date_range does not accept, so
'visualize input' and 'visualize both' always raised TypeError. Use the days of
the tagging period (input is stored per day), including the last one, and the
input frequency instead of a fixed hour.
---
 src/wam2layers/analysis/visualization.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/wam2layers/analysis/visualization.py b/src/wam2layers/analysis/visualization.py
index 68df185..1e38b45 100644
--- a/src/wam2layers/analysis/visualization.py
+++ b/src/wam2layers/analysis/visualization.py
@@ -5,7 +5,6 @@ from pathlib import Path
 
 import cmocean
 import matplotlib.pyplot as plt
-import pandas as pd
 import xarray as xr
 
 from wam2layers.config import Config
@@ -17,6 +16,7 @@ from wam2layers.tracking.io import (
     write_output,
 )
 from wam2layers.tracking.shared import initialize_tagging_region
+from wam2layers.utils.calendar import frequency_to_timedelta, round_cftime
 from wam2layers.utils.grid import get_boundary, get_grid_info
 
 logger = logging.getLogger(__name__)
@@ -82,26 +82,28 @@ def _plot_input(config: Config, ax):
     # Load data
     start = config.tagging_start_date
     end = config.tagging_end_date
-    dates = pd.date_range(
-        start=start,
+    dates = xr.cftime_range(  # there is one file per day
+        start=round_cftime(start, "1D", "floor"),
         end=end,
-        freq=config.output_frequency,
-        inclusive="left",
+        freq="1D",
     )
 
     input_files = []
-    for date in dates[:-1]:
+    for date in dates:
         input_files.append(
             input_path(date, config.preprocessed_data_folder)
         )  # takes current directory but needs a better fix
-    ds = xr.open_mfdataset(input_files, combine="nested", concat_dim="time")
+    ds = xr.open_mfdataset(
+        input_files, combine="nested", concat_dim="time", use_cftime=True
+    )
     if config.tracking_direction == "backward":
         subset = ds.precip.sel(time=slice(start, end))
     else:
         subset = ds.evap.sel(time=slice(start, end))
 
     # TODO: check if backtrack files or forwardtrack files were in output
-    input = (subset * region * 3600).sum("time").compute()
+    nseconds = frequency_to_timedelta(config.input_frequency).total_seconds()
+    input = (subset * region * nseconds).sum("time").compute()
 
     # Make figure
     input.plot(ax=ax, cmap=cmocean.cm.rain, cbar_kwargs=dict(fraction=0.05, shrink=0.5))
-- 
2.43.0


From f344381590656214a8cbf2800efc8f6ddf6e172f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 13/43] fix: time bounds of output intervals that are cut short
 by the tracking period

The bounds always spanned a full output interval, also for the first and last
output of a run that does not start or end at a multiple of the output
frequency, claiming accumulations over time that was not tracked.
---
 src/wam2layers/tracking/io.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index 8116ac7..82c114f 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -8,17 +8,14 @@ from pathlib import Path
 from typing import Optional
 
 import numpy as np
+import pandas as pd
 import xarray as xr
 
 from wam2layers import __version__
 from wam2layers.config import Config
 from wam2layers.preprocessing.utils import add_bounds
 from wam2layers.reference.variables import DATA_ATTRIBUTES
-from wam2layers.utils.calendar import (
-    CfDateTime,
-    frequency_to_timedelta,
-    round_cftime,
-)
+from wam2layers.utils.calendar import CfDateTime, round_cftime
 from wam2layers.utils.shapefile_mask import create_mask
 
 logger = logging.getLogger(__name__)
@@ -161,12 +158,20 @@ def load_tagging_region(config: Config, t: Optional[CfDateTime] = None):
 
 
 def add_time_bounds(ds: xr.Dataset, t: CfDateTime, config: Config):
-    """Compute the time bounds and add them to the output dataset."""
-    dt = frequency_to_timedelta(config.output_frequency)
+    """Compute the time bounds and add them to the output dataset.
+
+    The first or last interval is shorter if the tracking period does not start or end
+    at a multiple of the output frequency.
+    """
+    dt = pd.Timedelta(seconds=config.timestep)
     if config.tracking_direction == "forward":
-        ds["time_bnds"] = (("time", "bnds"), np.array(((t - dt, t),)))
+        previous_output = round_cftime(t - dt, config.output_frequency, "floor")
+        start = max(previous_output, config.tracking_start_date)
+        ds["time_bnds"] = (("time", "bnds"), np.array(((start, t),)))
     else:
-        ds["time_bnds"] = (("time", "bnds"), np.array(((t + dt, t),)))
+        previous_output = round_cftime(t + dt, config.output_frequency, "ceil")
+        end = min(previous_output, config.tracking_end_date)
+        ds["time_bnds"] = (("time", "bnds"), np.array(((end, t),)))
 
 
 def get_main_attrs(attrs: dict, config: Config):
-- 
2.43.0


From a844217fd81bfa390bbe0839d9dd0baa05b8599b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 14/43] fix: wrap the flux divergence around in periodic
 domains

The vertical flux was computed with one-sided differences in the first and last
column also if the domain is periodic, so results depended on the longitude at
which a global grid happens to start.
---
 src/wam2layers/tracking/backtrack.py    |  4 +++-
 src/wam2layers/tracking/core.py         | 18 +++++++++++++-----
 src/wam2layers/tracking/forwardtrack.py |  4 +++-
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/wam2layers/tracking/backtrack.py b/src/wam2layers/tracking/backtrack.py
index 15fd043..407ae78 100644
--- a/src/wam2layers/tracking/backtrack.py
+++ b/src/wam2layers/tracking/backtrack.py
@@ -194,7 +194,9 @@ def run_experiment(config_file: Config):
         stabilize_fluxes(F, S1, progress_tracker, config, t1)
 
         # Determine the vertical moisture flux
-        F["f_vert"] = calculate_fz(F, S0, S1, config.timestep, config.kvf)
+        F["f_vert"] = calculate_fz(
+            F, S0, S1, config.timestep, config.kvf, config.periodic_boundary
+        )
 
         # Inside backtrack the "output" dictionary is updated
         backtrack(F, S1, S0, tagging_mask, output, config)
diff --git a/src/wam2layers/tracking/core.py b/src/wam2layers/tracking/core.py
index dbda23d..2b3faa8 100644
--- a/src/wam2layers/tracking/core.py
+++ b/src/wam2layers/tracking/core.py
@@ -162,12 +162,16 @@ def stabilize_fluxes(F, S, progress_tracker: ProgressTracker, config: Config, t)
         F["fy_" + level] = np.sign(fy) * fy_stable / config.timestep
 
 
-def divergence(fx, fy):
+def divergence(fx, fy, periodic_x=False):
     # Note: latitude decreasing, hence negative fy gradient is divergence
-    return np.gradient(fx, axis=-1) - np.gradient(fy, axis=-2)
+    if periodic_x:
+        dfx = np.gradient(pad_x_wrap(fx), axis=-1)[:, 1:-1]
+    else:
+        dfx = np.gradient(fx, axis=-1)
+    return dfx - np.gradient(fy, axis=-2)
 
 
-def calculate_fz(F, S0, S1, dt, kvf):
+def calculate_fz(F, S0, S1, dt, kvf, periodic_x=False):
     """Calculate the vertical fluxes.
 
     The vertical flux is calculated as a closure term. Residuals are distributed
@@ -182,6 +186,7 @@ def calculate_fz(F, S0, S1, dt, kvf):
         dt: timestep
         kvf: net to gross vertical flux multiplication parameter. With the a value of 0,
             the net and gross fluxes are equal.
+        periodic_x: whether the domain is periodic in the zonal direction
 
     Returns:
         fz: vertical flux, positive downward
@@ -226,10 +231,13 @@ def calculate_fz(F, S0, S1, dt, kvf):
 
     # Evaluate all terms in the moisture balance execpt the unknown Fz and err
     foo_upper = (S1 - S0).s_upper + dt * (
-        divergence(F.fx_upper, F.fy_upper) + F.precip.values * s_rel.s_upper
+        divergence(F.fx_upper, F.fy_upper, periodic_x)
+        + F.precip.values * s_rel.s_upper
     ) / a[:, None]
     foo_lower = (S1 - S0).s_lower + dt * (
-        divergence(F.fx_lower, F.fy_lower) + F.precip.values * s_rel.s_lower - F.evap
+        divergence(F.fx_lower, F.fy_lower, periodic_x)
+        + F.precip.values * s_rel.s_lower
+        - F.evap
     ) / a[:, None]
 
     # compute the resulting vertical moisture flux; the vertical velocity so
diff --git a/src/wam2layers/tracking/forwardtrack.py b/src/wam2layers/tracking/forwardtrack.py
index 61393cb..92a0c41 100644
--- a/src/wam2layers/tracking/forwardtrack.py
+++ b/src/wam2layers/tracking/forwardtrack.py
@@ -202,7 +202,9 @@ def run_experiment(config_file: Config):
         stabilize_fluxes(F, S0, progress_tracker, config, t0)
 
         # Determine the vertical moisture flux
-        F["f_vert"] = calculate_fz(F, S0, S1, config.timestep, config.kvf)
+        F["f_vert"] = calculate_fz(
+            F, S0, S1, config.timestep, config.kvf, config.periodic_boundary
+        )
 
         # TODO: consider changing signature to F, S0, S1
         # Inside forwardtrack the "output" dictionary is updated
-- 
2.43.0


From af048a49d90c20b3b83b66dea5c09d32800ef0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 15/43] fix: read CMIP files in chronological order

The order in which glob lists the files of a variable is arbitrary, so that the
3-hourly data could be rejected or averaged in wrong pairs.
---
 src/wam2layers/utils/calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/utils/calendar.py b/src/wam2layers/utils/calendar.py
index 1718dfb..a50772b 100644
--- a/src/wam2layers/utils/calendar.py
+++ b/src/wam2layers/utils/calendar.py
@@ -80,7 +80,7 @@ def validate_calendar_type(config: "Config") -> None:
 
 def template_to_files(config: "Config", var: str) -> list[Path]:
     template = Path(config.filename_template.format(variable=var))
-    return list(template.parent.glob(template.name))
+    return sorted(template.parent.glob(template.name))  # chronological order
 
 
 def fix_deprecated_frequency(freq: str) -> str:
-- 
2.43.0


From 0740fb1b9ad96132e0e2eef055bdc060b7a4a2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:06 +0000
Subject: [PATCH 16/43] fix: expand ~ in the data and output folders

The settings documented as '~/case/output' created a folder named '~' in the
working directory.
---
 src/wam2layers/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/config.py b/src/wam2layers/config.py
index ee431ee..91ed606 100644
--- a/src/wam2layers/config.py
+++ b/src/wam2layers/config.py
@@ -526,7 +526,7 @@ class Config(BaseModel):
     def _expanduser(cls, path):
         """Resolve ~ in input paths."""
         if isinstance(path, Path):
-            return path.absolute()
+            return path.expanduser().absolute()
         return path  # Leave URLs untouched
 
     @field_validator("preprocessed_data_folder", "output_folder")
-- 
2.43.0


From a270f6edc16f5ffaf9f2e11a61d65e8e3776e04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:18 +0000
Subject: [PATCH 17/43] fix: decode compressed responses when downloading files

The raw stream was stored, so files that the server sends with a content
encoding (requests asks for gzip) were stored compressed.
---
 src/wam2layers/download.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/download.py b/src/wam2layers/download.py
index 4a84f7e..e3320e2 100644
--- a/src/wam2layers/download.py
+++ b/src/wam2layers/download.py
@@ -2,7 +2,6 @@
 
 import logging
 import re
-import shutil
 from pathlib import Path
 
 import requests
@@ -71,7 +70,8 @@ def download(url, destination, local_filename=None):
     with requests.get(url, stream=True) as r:
         r.raise_for_status()
         with open(local_path, "wb") as f:
-            shutil.copyfileobj(r.raw, f)
+            for chunk in r.iter_content(chunk_size=2**20):
+                f.write(chunk)
 
 
 def get_4tu_id(doi):
-- 
2.43.0


From 83ff0276485959ebda13a346da890983dfc10c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:58 +0000
Subject: [PATCH 18/43] fix: do not repeat stability warnings for what was
 warned about

The warning says that the next one is raised when 10% more cells are corrected
or the correction is 10% stronger, but each kind of warning only remembered its
own criterion, so that the same correction raised a second warning.
---
 src/wam2layers/utils/profiling.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/utils/profiling.py b/src/wam2layers/utils/profiling.py
index df635f8..3fea8f6 100644
--- a/src/wam2layers/utils/profiling.py
+++ b/src/wam2layers/utils/profiling.py
@@ -147,17 +147,23 @@ class ProgressTracker:
 
         warn = False
         if strongest_correction < self.stability_correction_previous_factor / 1.1:
-            self.stability_correction_previous_factor = strongest_correction
             warn = True
 
         elif (
             corrected_percent > 5  # at least 5 percent of the grid should be corrected
             and corrected_percent > self.stability_correction_previous_grid * 1.1
         ):
-            self.stability_correction_previous_grid = corrected_percent
             warn = True
 
         if warn:
+            # Later warnings are relative to everything that was warned about
+            self.stability_correction_previous_factor = min(
+                strongest_correction, self.stability_correction_previous_factor
+            )
+            self.stability_correction_previous_grid = max(
+                corrected_percent, self.stability_correction_previous_grid
+            )
+
             # Write correction field to output debug file
             # TODO: doesn't feel like the right place to do this.
             # a model object could improve the code structure.
-- 
2.43.0


From 4c984e4672051ddfbec4c2a05b9de58c1bf3dbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:50 +0000
Subject: [PATCH 19/43] fix: accept a configuration file that is in the output
 folder already

---
 src/wam2layers/cli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wam2layers/cli.py b/src/wam2layers/cli.py
index 6c6cf71..8d12d85 100644
--- a/src/wam2layers/cli.py
+++ b/src/wam2layers/cli.py
@@ -63,7 +63,10 @@ def setup_logging(log_path: Union[str, Path], debug: bool):
 
 def _copy_config_yaml(yaml_path, target_path):
     """Copy config file to the output path."""
-    shutil.copy(yaml_path, target_path)
+    try:
+        shutil.copy(yaml_path, target_path)
+    except shutil.SameFileError:  # it is already there
+        pass
 
 
 def get_wam_version():
-- 
2.43.0


From ad45f989842ccd854b86526371b54a5011ce9321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:02 +0000
Subject: [PATCH 20/43] fix: check the dimensions of total column water like
 those of other variables

---
 src/wam2layers/preprocessing/input_validation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wam2layers/preprocessing/input_validation.py b/src/wam2layers/preprocessing/input_validation.py
index af55fe3..fe61a6a 100644
--- a/src/wam2layers/preprocessing/input_validation.py
+++ b/src/wam2layers/preprocessing/input_validation.py
@@ -35,6 +35,8 @@ def validate_vars(data: xr.Dataset, config: Config) -> None:
         expected_surface_vars.extend(["qs", "us", "vs"])
     if config.level_type == "model_levels":
         expected_level_vars.extend(["dp"])
+    if "tcw" in data.data_vars:  # optional
+        expected_surface_vars.append("tcw")
 
     # Check if the variables are present
     for var in expected_level_vars + expected_surface_vars:
-- 
2.43.0


From 26f79e126a3ca5d2fa891de81327911093146a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:35 +0000
Subject: [PATCH 21/43] fix: read input again in a new tracking run

Slices of preprocessed data were cached by file name and time only. A second
experiment in the same process used data of files that had been replaced.
---
 src/wam2layers/tracking/backtrack.py    | 4 ++++
 src/wam2layers/tracking/forwardtrack.py | 4 ++++
 src/wam2layers/tracking/io.py           | 5 +++++
 3 files changed, 13 insertions(+)

diff --git a/src/wam2layers/tracking/backtrack.py b/src/wam2layers/tracking/backtrack.py
index 407ae78..0788a47 100644
--- a/src/wam2layers/tracking/backtrack.py
+++ b/src/wam2layers/tracking/backtrack.py
@@ -14,6 +14,7 @@ from wam2layers.tracking.core import (
     vertical_dispersion,
 )
 from wam2layers.tracking.io import (
+    clear_cached_slices,
     load_data,
     load_tagging_region,
     output_path,
@@ -120,6 +121,9 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
 
     config = Config.from_yaml(config_file)
 
+    # Input files may have been replaced since a previous run in this process
+    clear_cached_slices()
+
     # Initialize outputs as empty fields based on the input coords
     t = config.tracking_end_date
     grid = load_data(t, config, "states").coords
diff --git a/src/wam2layers/tracking/forwardtrack.py b/src/wam2layers/tracking/forwardtrack.py
index 92a0c41..e0864c1 100644
--- a/src/wam2layers/tracking/forwardtrack.py
+++ b/src/wam2layers/tracking/forwardtrack.py
@@ -14,6 +14,7 @@ from wam2layers.tracking.core import (
     vertical_dispersion,
 )
 from wam2layers.tracking.io import (
+    clear_cached_slices,
     load_data,
     load_tagging_region,
     output_path,
@@ -122,6 +123,9 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
 
     config = Config.from_yaml(config_file)
 
+    # Input files may have been replaced since a previous run in this process
+    clear_cached_slices()
+
     # Initialize outputs as empty fields based on the input coords
     t = config.tracking_start_date
     grid = load_data(t, config, "states").coords
diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index 82c114f..7a82bba 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -113,6 +113,11 @@ def _load_slice_with_cache(filename, time, subset: str, bbox: Optional[str] = No
     return fully_load_and_detach(ds)
 
 
+def clear_cached_slices() -> None:
+    """Forget the slices that were loaded before, so they are read from file again."""
+    _load_slice_with_cache.cache_clear()
+
+
 def load_slice(t: CfDateTime, subset: str, config: Config) -> xr.Dataset:
     filename = input_path(t, config.preprocessed_data_folder)
     time = t.strftime("%Y-%m-%dT%H:%M:%S")
-- 
2.43.0


From 1842e76704553de33822792bced0b2e2786f07c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:24 +0000
Subject: [PATCH 22/43] fix: read raw input again in a new preprocessing run

The opened input files were cached by file name. A second preprocessing run in
the same process used the data of files that had been replaced.
---
 src/wam2layers/preprocessing/shared.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wam2layers/preprocessing/shared.py b/src/wam2layers/preprocessing/shared.py
index 0c60073..fd2f82a 100644
--- a/src/wam2layers/preprocessing/shared.py
+++ b/src/wam2layers/preprocessing/shared.py
@@ -110,6 +110,10 @@ def prep_experiment(
     """
     config = Config.from_yaml(config_file)
 
+    # Input files may have been replaced since a previous run in this process
+    era5.open_da.cache_clear()
+    cmip.open_var.cache_clear()
+
     if data_source == "CMIP":
         validate_calendar_type(config)
 
-- 
2.43.0


From 9ce67d01c03cc89826a36bac2cf3ab4ef8944f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 23/43] fix: cells of a shapefile mask end at the poles

Half of a grid cell centred on a pole lies beyond the pole, so its weight could
not exceed 0.5, even if the polygon covered the whole cell.
---
 src/wam2layers/utils/shapefile_mask.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/utils/shapefile_mask.py b/src/wam2layers/utils/shapefile_mask.py
index b7f6938..32ada30 100644
--- a/src/wam2layers/utils/shapefile_mask.py
+++ b/src/wam2layers/utils/shapefile_mask.py
@@ -48,9 +48,9 @@ def generate_boxes(
         y = loc["latitude"].to_numpy()
         box = shapely.box(
             x - 0.5 * resolution.lon,
-            y - 0.5 * resolution.lat,
+            max(y - 0.5 * resolution.lat, -90),
             x + 0.5 * resolution.lon,
-            y + 0.5 * resolution.lat,
+            min(y + 0.5 * resolution.lat, 90),
         )
         boxes.append(box)
     return boxes
-- 
2.43.0


From a873870d044fa7c8cca4c34eb91d728334783f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:08 +0000
Subject: [PATCH 24/43] fix: weigh cells across the antimeridian in shapefile
 masks

A cell centred on 180 degrees covers both ends of the longitude range, but only
the part of the polygon at its own end was counted.
---
 src/wam2layers/utils/shapefile_mask.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/utils/shapefile_mask.py b/src/wam2layers/utils/shapefile_mask.py
index 32ada30..1e1884c 100644
--- a/src/wam2layers/utils/shapefile_mask.py
+++ b/src/wam2layers/utils/shapefile_mask.py
@@ -6,6 +6,7 @@ from typing import Union
 
 import numpy as np
 import shapefile
+import shapely.affinity
 import shapely.geometry
 import xarray as xr
 
@@ -62,16 +63,24 @@ def create_mask(ds: xr.Dataset, shape: Union[str, Path]):
     minx, miny, maxx, maxy = poly.bounds
     resolution = infer_resolution(ds)
 
+    lon_range = slice(minx - resolution.lon, maxx + resolution.lon)
+    if lon_range.start < -180 or lon_range.stop > 180:
+        lon_range = slice(None)  # a cell on the antimeridian lies at both ends
+
     subset = ensure_monotonic(ds).sel(
         latitude=slice(miny - resolution.lat, maxy + resolution.lat),
-        longitude=slice(minx - resolution.lon, maxx + resolution.lon),
+        longitude=lon_range,
     )
     stack = subset.stack(loc=("longitude", "latitude"))
     boxes = generate_boxes(stack["loc"], resolution)
 
     weights = []
     for box in boxes:
-        weights.append(shapely.intersection(box, poly).area / box.area)
+        covered = 0.0
+        for turn in (-360, 0, 360):
+            turned_box = shapely.affinity.translate(box, xoff=turn)
+            covered += shapely.intersection(turned_box, poly).area
+        weights.append(covered / box.area)
 
     subset_mask = xr.DataArray(
         np.array(weights).reshape((subset["longitude"].size, subset["latitude"].size)),
-- 
2.43.0


From aeb55943cae25c266aefb1065efc298aff34896c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:24 +0000
Subject: [PATCH 25/43] fix: pass on the source and history of the data to the
 output

The output dataset never carried the attributes of the preprocessed data, so
that every output file said its source is UNKNOWN.
---
 src/wam2layers/tracking/backtrack.py    | 6 ++++--
 src/wam2layers/tracking/forwardtrack.py | 6 ++++--
 src/wam2layers/tracking/io.py           | 3 ++-
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/wam2layers/tracking/backtrack.py b/src/wam2layers/tracking/backtrack.py
index 0788a47..c221f07 100644
--- a/src/wam2layers/tracking/backtrack.py
+++ b/src/wam2layers/tracking/backtrack.py
@@ -126,7 +126,8 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
 
     # Initialize outputs as empty fields based on the input coords
     t = config.tracking_end_date
-    grid = load_data(t, config, "states").coords
+    states = load_data(t, config, "states")
+    grid = states.coords
     output = xr.Dataset(
         {
             # Keep last state for a restart
@@ -136,7 +137,8 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
             "tagged_precip": xr.DataArray(0, coords=grid).astype("float32"),
             "losses": xr.DataArray(0, coords=grid).astype("float32"),
             "gains": xr.DataArray(0, coords=grid).astype("float32"),
-        }
+        },
+        attrs=states.attrs,  # passes on the source of the data
     )
 
     if config.restart:
diff --git a/src/wam2layers/tracking/forwardtrack.py b/src/wam2layers/tracking/forwardtrack.py
index e0864c1..9ffdd8f 100644
--- a/src/wam2layers/tracking/forwardtrack.py
+++ b/src/wam2layers/tracking/forwardtrack.py
@@ -128,7 +128,8 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
 
     # Initialize outputs as empty fields based on the input coords
     t = config.tracking_start_date
-    grid = load_data(t, config, "states").coords
+    states = load_data(t, config, "states")
+    grid = states.coords
     output = xr.Dataset(
         {
             # Keep last state for a restart
@@ -139,7 +140,8 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
             "tagged_evap": xr.DataArray(0, coords=grid).astype("float32"),
             "losses": xr.DataArray(0, coords=grid).astype("float32"),
             "gains": xr.DataArray(0, coords=grid).astype("float32"),
-        }
+        },
+        attrs=states.attrs,  # passes on the source of the data
     )
 
     if config.restart:
diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index 7a82bba..8544741 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -138,7 +138,8 @@ def load_data(t: CfDateTime, config: Config, subset: str = "fluxes") -> xr.Datas
 
     da0 = load_slice(t0, subset, config)
     da1 = load_slice(t1, subset, config)
-    return da0 + (t - t0) / (t1 - t0) * (da1 - da0)
+    da = da0 + (t - t0) / (t1 - t0) * (da1 - da0)
+    return da.assign_attrs(da0.attrs)
 
 
 def load_tagging_region(config: Config, t: Optional[CfDateTime] = None):
-- 
2.43.0


From d15d55c474f60b0dbbe17fc2962c97bbab0f0d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:59 +0000
Subject: [PATCH 26/43] fix: start tracking between input times

The order of the dimensions got lost in the interpolation of the initial grid,
so that runs starting between two input times failed, or used transposed
output fields on a square grid.
---
 src/wam2layers/tracking/io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index 8544741..747f9f4 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -138,8 +138,11 @@ def load_data(t: CfDateTime, config: Config, subset: str = "fluxes") -> xr.Datas
 
     da0 = load_slice(t0, subset, config)
     da1 = load_slice(t1, subset, config)
-    da = da0 + (t - t0) / (t1 - t0) * (da1 - da0)
-    return da.assign_attrs(da0.attrs)
+    # Variable by variable, to keep the attributes and the order of the dimensions
+    da = da0.copy()
+    for var in da0.data_vars:
+        da[var] = da0[var] + (t - t0) / (t1 - t0) * (da1[var] - da0[var])
+    return da
 
 
 def load_tagging_region(config: Config, t: Optional[CfDateTime] = None):
-- 
2.43.0


From 8f3dfeb513b4e926509c942f63e64f41cde45f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:16 +0000
Subject: [PATCH 27/43] fix: time bounds if time steps skip output times

If the steps do not reach every multiple of the output frequency, the interval
since the previous output is longer than one output frequency.
---
 src/wam2layers/tracking/io.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index 747f9f4..959a39c 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -169,18 +169,24 @@ def load_tagging_region(config: Config, t: Optional[CfDateTime] = None):
 def add_time_bounds(ds: xr.Dataset, t: CfDateTime, config: Config):
     """Compute the time bounds and add them to the output dataset.
 
-    The first or last interval is shorter if the tracking period does not start or end
-    at a multiple of the output frequency.
+    An interval extends from the previous output, or from the start of the tracking, to
+    the current output. Not every multiple of the output frequency is an output time: the
+    tracking period can start or end in between, and time steps can skip it.
     """
     dt = pd.Timedelta(seconds=config.timestep)
-    if config.tracking_direction == "forward":
-        previous_output = round_cftime(t - dt, config.output_frequency, "floor")
-        start = max(previous_output, config.tracking_start_date)
-        ds["time_bnds"] = (("time", "bnds"), np.array(((start, t),)))
+    if config.tracking_direction == "backward":
+        dt = -dt
+        start = config.tracking_end_date
     else:
-        previous_output = round_cftime(t + dt, config.output_frequency, "ceil")
-        end = min(previous_output, config.tracking_end_date)
-        ds["time_bnds"] = (("time", "bnds"), np.array(((end, t),)))
+        start = config.tracking_start_date
+
+    # Go back to the previous step with output, or to the start of the tracking
+    previous = t - dt
+    while abs(t - previous) < abs(t - start) and previous != round_cftime(
+        previous, config.output_frequency, "floor"
+    ):
+        previous -= dt
+    ds["time_bnds"] = (("time", "bnds"), np.array(((previous, t),)))
 
 
 def get_main_attrs(attrs: dict, config: Config):
-- 
2.43.0


From cece876318df18c51d435b736e68fc39b96873f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:35 +0000
Subject: [PATCH 28/43] fix: describe the coordinates of the output

The reference attributes of latitude, longitude and their bounds were not added
to output files, which therefore had coordinates without units.
---
 src/wam2layers/tracking/io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index 959a39c..6a0c8e1 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -224,10 +224,11 @@ def write_output(
     output = output.assign_coords({"time": t})
     output = output.expand_dims(dim="time")
 
-    for var in output.data_vars:
-        output[var].attrs.update(DATA_ATTRIBUTES[str(var)])
-
     add_bounds(output)
+
+    for var in output.variables:
+        output[var].attrs.update(DATA_ATTRIBUTES.get(str(var), {}))
+
     add_time_bounds(output, t, config)
     output.attrs = get_main_attrs(output.attrs, config)
 
-- 
2.43.0


From b48c726dfaf1d25b6d5bd37e40527140e10b2f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:35 +0000
Subject: [PATCH 29/43] fix: designed tagging regions: keep regions without
 grid cells, so that the region numbers remain valid

---
 src/wam2layers/utils/tagging_region.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/wam2layers/utils/tagging_region.py b/src/wam2layers/utils/tagging_region.py
index 3cd74e2..b0150c0 100644
--- a/src/wam2layers/utils/tagging_region.py
+++ b/src/wam2layers/utils/tagging_region.py
@@ -65,7 +65,8 @@ def mask_with_regionmask(region_source, regions, input_file, output_dir, return_
             )
 
     # create (a) mask(s) of the required region(s):
-    mask = getattr(available_regions, "mask_3D")(longitude, latitude)
+    # (regions without any grid cell are kept, so that the IDs remain valid)
+    mask = getattr(available_regions, "mask_3D")(longitude, latitude, drop=False)
 
     # Specify region ID - what to store
     region_ids = np.array(regions)
@@ -181,8 +182,8 @@ def mask_with_shapefile(shapefile, regions, reference_file, output_dir, return_p
     # Read shapefile
     ds = gpd.read_file(shapefile)  # load shape file
 
-    # Generate mask
-    mask = regionmask.mask_3D_geopandas(ds, longitude, latitude)
+    # Generate mask (keep regions without any grid cell, so that the IDs remain valid)
+    mask = regionmask.mask_3D_geopandas(ds, longitude, latitude, drop=False)
 
     # Specify region ID - what to store
     if regions != False:
-- 
2.43.0


From 49718466f77960d5c8b62930024e8758477a0931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:29 +0000
Subject: [PATCH 30/43] fix: designed tagging regions: several regions were
 averaged to weights below 1 instead of combined

---
 src/wam2layers/utils/tagging_region.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wam2layers/utils/tagging_region.py b/src/wam2layers/utils/tagging_region.py
index b0150c0..d3fee6e 100644
--- a/src/wam2layers/utils/tagging_region.py
+++ b/src/wam2layers/utils/tagging_region.py
@@ -95,7 +95,7 @@ def mask_with_regionmask(region_source, regions, input_file, output_dir, return_
     new_masks = np.where(
         new_masks == False, 0, 1
     )  # Replace True and False by 1 and 0's
-    new_masks = np.nanmean(new_masks, axis=0)  # Multiple masks into 1D array
+    new_masks = np.nanmax(new_masks, axis=0)  # Combine multiple masks (0 or 1)
 
     # Export as tagging region for WAM2layers
 
@@ -201,7 +201,7 @@ def mask_with_shapefile(shapefile, regions, reference_file, output_dir, return_p
         new_masks = np.where(
             new_masks == False, 0, 1
         )  # Replace True and False by 1 and 0's
-        new_masks = np.nanmean(new_masks, axis=0)  # Multiple masks into 1D array
+        new_masks = np.nanmax(new_masks, axis=0)  # Combine multiple masks (0 or 1)
     else:
         new_masks = mask.isel(region=[0]).values
 
@@ -209,7 +209,7 @@ def mask_with_shapefile(shapefile, regions, reference_file, output_dir, return_p
         new_masks = np.where(
             new_masks == False, 0, 1
         )  # Replace True and False by 1 and 0's
-        new_masks = np.nanmean(new_masks, axis=0)  # Multiple masks into 1D array
+        new_masks = np.nanmax(new_masks, axis=0)  # Combine multiple masks (0 or 1)
 
     # Export as tagging region for WAM2layers
 
-- 
2.43.0


From 1d0a7a9aa4b15ef966eab79c5dd1f31398410c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:42 +0000
Subject: [PATCH 31/43] fix: designed tagging regions around points lacked the
 cells beyond the antimeridian or in another longitude convention

---
 src/wam2layers/utils/tagging_region.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/wam2layers/utils/tagging_region.py b/src/wam2layers/utils/tagging_region.py
index d3fee6e..6770bae 100644
--- a/src/wam2layers/utils/tagging_region.py
+++ b/src/wam2layers/utils/tagging_region.py
@@ -378,9 +378,9 @@ def mask_around_point(
     center_lat, center_lon = centerpoint
 
     # Set the square region of value 1 in the mask
-    mask = (np.abs(latitude - center_lat) <= radius) & (
-        np.abs(longitude - center_lon) <= radius
-    )
+    # (differences in longitude are independent of convention and antimeridian)
+    lon_difference = np.abs((longitude - center_lon + 180) % 360 - 180)
+    mask = (np.abs(latitude - center_lat) <= radius) & (lon_difference <= radius)
 
     new_masks = np.where(mask == False, 0, 1)  # Replace True and False by 1 and 0's
 
@@ -507,9 +507,9 @@ def mask_around_track(
         center_lat, center_lon = centerpoint
 
         # Set the square region of value 1 in the mask
-        mask = (np.abs(latitude - center_lat) <= radius) & (
-            np.abs(longitude - center_lon) <= radius
-        )
+        # (differences in longitude are independent of convention and antimeridian)
+        lon_difference = np.abs((longitude - center_lon + 180) % 360 - 180)
+        mask = (np.abs(latitude - center_lat) <= radius) & (lon_difference <= radius)
 
         new_masks[t, ::] = np.where(
             mask == False, 0, 1
-- 
2.43.0


From c278f17e6a337d78faf57d508701c9da6210833d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:56 +0000
Subject: [PATCH 32/43] fix: input with another order of dimensions was mixed
 up in preprocessing

---
 src/wam2layers/preprocessing/shared.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wam2layers/preprocessing/shared.py b/src/wam2layers/preprocessing/shared.py
index fd2f82a..2e98e75 100644
--- a/src/wam2layers/preprocessing/shared.py
+++ b/src/wam2layers/preprocessing/shared.py
@@ -82,6 +82,8 @@ def get_input_data(
         raise NotImplementedError(msg)
 
     validate_input(data, config)
+    # The input files may hold their dimensions in any order
+    data = data.transpose("level", "latitude", "longitude", ...)
     return data, input_data_attrs
 
 
-- 
2.43.0


From feeec971f25f12cf58b1823ecb00ef1ff5869e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:22 +0000
Subject: [PATCH 33/43] fix: model levels listed in another order than top down
 got wrong thicknesses

---
 src/wam2layers/preprocessing/era5.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wam2layers/preprocessing/era5.py b/src/wam2layers/preprocessing/era5.py
index 9868ebc..e44240d 100644
--- a/src/wam2layers/preprocessing/era5.py
+++ b/src/wam2layers/preprocessing/era5.py
@@ -179,6 +179,9 @@ def get_edges(era5_modellevels):
 
 def get_dp_modellevels(sp, levels):
     """Calculate pressure jump over subset of era5 modellevels."""
+    if levels not in ("all", "All"):
+        levels = sorted(levels)  # the edges are in between neighbouring levels
+
     a, b = get_edges(levels)
     if levels in ("all", "All"):
         levels = np.arange(1, len(a))
-- 
2.43.0


From 5a929189a439015ab47b2f545e2549bb3ff77c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:59 +0000
Subject: [PATCH 34/43] fix: the ARCO-ERA5 preprocessor failed if all levels
 were requested

---
 src/wam2layers/preprocessing/arco.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wam2layers/preprocessing/arco.py b/src/wam2layers/preprocessing/arco.py
index 9f8d713..4cb7cc8 100644
--- a/src/wam2layers/preprocessing/arco.py
+++ b/src/wam2layers/preprocessing/arco.py
@@ -73,7 +73,8 @@ def get_input_data(datetime: CfDateTime, config: Config):
     ds = open_arco_pl()
     data = ds.sel(time=datetime).compute()
 
-    data = data.sel(level=config.levels)  # Only select wanted levels
+    if isinstance(config.levels, list):
+        data = data.sel(level=config.levels)  # Only select wanted levels
 
     data["qs"] = calculate_humidity(
         data["2m_dewpoint_temperature"], data["surface_pressure"]
-- 
2.43.0


From 6f5f493aed61cfa8c4dc5102d2fd872bc8f6fe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:00 +0000
Subject: [PATCH 35/43] fix: the CMIP preprocessor ignored the configured
 levels

---
 src/wam2layers/preprocessing/cmip.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/wam2layers/preprocessing/cmip.py b/src/wam2layers/preprocessing/cmip.py
index af28c03..9c92089 100644
--- a/src/wam2layers/preprocessing/cmip.py
+++ b/src/wam2layers/preprocessing/cmip.py
@@ -41,6 +41,8 @@ def get_input_data(datetime: CfDateTime, config: Config):
     u = load_cmip_var("u", datetime, config)  # in m/s
     v = load_cmip_var("v", datetime, config)  # in m/s
     levels = common_levels(q["level"], u["level"], v["level"])
+    if isinstance(config.levels, list):
+        levels = select_levels(levels, config.levels)
 
     data["q"] = load_cmip_var("q", datetime, config).sel(level=levels)
     data["u"] = load_cmip_var("u", datetime, config).sel(level=levels)
@@ -142,3 +144,16 @@ def common_levels(*levels: xr.DataArray) -> np.ndarray:
     for lv in lvs:
         common = common.intersection(lv.to_numpy())
     return np.array(list(common))
+
+
+def select_levels(available: np.ndarray, wanted: list[int]) -> np.ndarray:
+    """Select the wanted levels (in Pa, rounded to integers) from those available."""
+    rounded = np.rint(available)
+    missing = set(wanted) - set(rounded)
+    if missing:
+        msg = (
+            f"Levels {sorted(missing)} are not available in the input data.\n"
+            f"Levels available for all variables: {sorted(rounded)}."
+        )
+        raise ValueError(msg)
+    return available[np.isin(rounded, wanted)]
-- 
2.43.0


From 1130d17acb576e6da121095bc433151b5e1e2d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:30 +0000
Subject: [PATCH 36/43] fix: a shapefile region needed local data and took the
 grid of an arbitrary file

---
 src/wam2layers/tracking/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index 6a0c8e1..23d13d3 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -148,7 +148,9 @@ def load_data(t: CfDateTime, config: Config, subset: str = "fluxes") -> xr.Datas
 def load_tagging_region(config: Config, t: Optional[CfDateTime] = None):
     if config.tagging_region.suffix == ".shp":
         logger.info("Generating mask from shapefile...")
-        ds = xr.open_dataset(next(config.preprocessed_data_folder.glob("*.nc")))
+        ds = read_or_retry(
+            input_path(config.tracking_start_date, config.preprocessed_data_folder)
+        )
         tagging_region = create_mask(ds, config.tagging_region)
         logger.info("Writing mask to debug folder.")
         (config.output_folder / "debug").mkdir(exist_ok=True)
-- 
2.43.0


From 9d74b3c55827756fa96ca2f8e2b6bfadaa19d2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:12 +0000
Subject: [PATCH 37/43] fix: a mask stored as longitude x latitude tagged other
 cells on square grids

---
 src/wam2layers/tracking/io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index 23d13d3..d74097b 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -159,6 +159,10 @@ def load_tagging_region(config: Config, t: Optional[CfDateTime] = None):
         )
     else:
         tagging_region = xr.open_dataarray(config.tagging_region)
+        # Use the order of the dimensions of the input data
+        tagging_region = tagging_region.transpose(
+            "time", "latitude", "longitude", ..., missing_dims="ignore"
+        )
 
     if config.tracking_domain is not None:
         tagging_region = select_subdomain(tagging_region, str(config.tracking_domain))
-- 
2.43.0


From 42b2bd4be6195cf9124fe5f6f00ed4ca230f2276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:40 +0000
Subject: [PATCH 38/43] fix: an interrupted run left an incomplete output file
 that was read as missing values

---
 src/wam2layers/tracking/io.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index d74097b..d7801c7 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -1,4 +1,5 @@
 import logging
+import os
 import time
 import traceback
 from copy import deepcopy
@@ -247,4 +248,8 @@ def write_output(
     for var in output.data_vars:
         if var != "time_bnds":
             output[var] = output[var].astype("float32")
-    output.to_netcdf(path, encoding=encoding)
+
+    # Only complete files get their final name, also if the run is interrupted
+    temporary_path = f"{path}.part"
+    output.to_netcdf(temporary_path, encoding=encoding)
+    os.replace(temporary_path, path)
-- 
2.43.0


From 63c4bb4c71e27dc180893c54352cd42a1fd75081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:30 +0000
Subject: [PATCH 39/43] fix: of two runs started at the same time with a new
 output folder one could fail

---
 src/wam2layers/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/config.py b/src/wam2layers/config.py
index 91ed606..e67b32d 100644
--- a/src/wam2layers/config.py
+++ b/src/wam2layers/config.py
@@ -535,7 +535,7 @@ class Config(BaseModel):
         """Create output dirs if they don't exist yet."""
         if isinstance(path, Path) and not path.exists():
             logger.info(f"Creating output folder {path}")
-            path.mkdir(parents=True)
+            path.mkdir(parents=True, exist_ok=True)
         return path
 
     @model_validator(mode="before")
-- 
2.43.0


From 3ff70118f097ce3496f06dc769cf4d2f1794c7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:15 +0000
Subject: [PATCH 40/43] fix: a debug file that another run was writing stopped
 a run

---
 src/wam2layers/tracking/io.py     | 8 +++++---
 src/wam2layers/utils/profiling.py | 6 +++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index d7801c7..6c137c9 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -155,9 +155,11 @@ def load_tagging_region(config: Config, t: Optional[CfDateTime] = None):
         tagging_region = create_mask(ds, config.tagging_region)
         logger.info("Writing mask to debug folder.")
         (config.output_folder / "debug").mkdir(exist_ok=True)
-        tagging_region.to_dataset().to_netcdf(
-            config.output_folder / "debug" / "tagging_region.nc"
-        )
+        path = config.output_folder / "debug" / "tagging_region.nc"
+        # Other runs with this output folder may be writing it as well
+        temporary_path = f"{path}.{os.getpid()}.part"
+        tagging_region.to_dataset().to_netcdf(temporary_path)
+        os.replace(temporary_path, path)
     else:
         tagging_region = xr.open_dataarray(config.tagging_region)
         # Use the order of the dimensions of the input data
diff --git a/src/wam2layers/utils/profiling.py b/src/wam2layers/utils/profiling.py
index 3fea8f6..1f85d24 100644
--- a/src/wam2layers/utils/profiling.py
+++ b/src/wam2layers/utils/profiling.py
@@ -1,4 +1,5 @@
 import logging
+import os
 import time
 
 import numpy as np
@@ -173,7 +174,10 @@ class ProgressTracker:
             filename = debug_dir / f"stability_correction_{timestamp}.nc"
 
             correction_factor.name = "correction_factor"
-            correction_factor.to_netcdf(filename)
+            # Other runs with this output folder may be writing it as well
+            temporary_path = f"{filename}.{os.getpid()}.part"
+            correction_factor.to_netcdf(temporary_path)
+            os.replace(temporary_path, filename)
 
             logger.warning(
                 f"Warning: stability correction applied to {corrected_percent:.1f}% of "
-- 
2.43.0


From 771ce53dbc530b816e58964770b2bd31dad1a7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:10 +0000
Subject: [PATCH 41/43] fix: an interrupted download was taken for complete by
 the download scripts

---
 scripts/download_era5_ml.py | 8 ++++++--
 scripts/download_era5_pl.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/scripts/download_era5_ml.py b/scripts/download_era5_ml.py
index 4bc03e4..2a3ece8 100644
--- a/scripts/download_era5_ml.py
+++ b/scripts/download_era5_ml.py
@@ -84,6 +84,7 @@ for date in datelist:
     # Download surface variables
     for variable, long_name in surface_variables.items():
         outfile = f"ERA5_{date.strftime('%Y-%m-%d')}_{variable}.nc"
+        partfile = f"{outfile}.part"  # gets its name when it is complete
         if (outfolder / outfile).exists() and skip_exist:
             print(
                 f"{outfolder / outfile} already exists, skipping. Set skip_exist = False to force re-download"
@@ -103,8 +104,9 @@ for date in datelist:
                 c.retrieve(
                     "reanalysis-era5-single-levels",
                     request,
-                    str(outfolder / outfile),
+                    str(outfolder / partfile),
                 )
+                (outfolder / partfile).replace(outfolder / outfile)
             except Exception as e:
                 print(e)
                 print(
@@ -118,6 +120,7 @@ for date in datelist:
     # Download 3d variables
     for variable, param in ml_variables.items():
         outfile = f"ERA5_{date.strftime('%Y-%m-%d')}_ml_{variable}.nc"
+        partfile = f"{outfile}.part"  # gets its name when it is complete
         if (outfolder / outfile).exists() and skip_exist:
             print(
                 f"{outfolder / outfile} already exists, skipping. Set skip_exist = False to force re-download"
@@ -143,8 +146,9 @@ for date in datelist:
                 c.retrieve(
                     "reanalysis-era5-complete",
                     request,
-                    str(outfolder / outfile),
+                    str(outfolder / partfile),
                 )
+                (outfolder / partfile).replace(outfolder / outfile)
             except Exception as e:
                 print(e)
                 print(
diff --git a/scripts/download_era5_pl.py b/scripts/download_era5_pl.py
index 3c36b6b..a4fcba9 100644
--- a/scripts/download_era5_pl.py
+++ b/scripts/download_era5_pl.py
@@ -106,6 +106,7 @@ for date in datelist:
     # Download surface variables
     for variable, long_name in surface_variables.items():
         outfile = f"ERA5_{date.strftime('%Y-%m-%d')}_{variable}.nc"
+        partfile = f"{outfile}.part"  # gets its name when it is complete
         if (outfolder / outfile).exists() and skip_exist:
             print(
                 f"{outfolder / outfile} already exists, skipping. Set skip_exist = False to force re-download"
@@ -125,8 +126,9 @@ for date in datelist:
                 c.retrieve(
                     "reanalysis-era5-single-levels",
                     request,
-                    str(outfolder / outfile),
+                    str(outfolder / partfile),
                 )
+                (outfolder / partfile).replace(outfolder / outfile)
             except Exception as e:
                 print(e)
                 print(
@@ -140,6 +142,7 @@ for date in datelist:
     # Download 3d variables
     for variable, long_name in pl_variables.items():
         outfile = f"ERA5_{date.strftime('%Y-%m-%d')}_pl_{variable}.nc"
+        partfile = f"{outfile}.part"  # gets its name when it is complete
         if (outfolder / outfile).exists() and skip_exist:
             print(
                 f"{outfolder / outfile} already exists, skipping. Set skip_exist = False to force re-download"
@@ -160,8 +163,9 @@ for date in datelist:
                 c.retrieve(
                     "reanalysis-era5-pressure-levels",
                     request,
-                    str(outfolder / outfile),
+                    str(outfolder / partfile),
                 )
+                (outfolder / partfile).replace(outfolder / outfile)
             except Exception as e:
                 print(e)
                 print(
-- 
2.43.0


From 467ea85b06a0176db854ad8722611098c85d84ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:03 +0000
Subject: [PATCH 42/43] fix: a calendar mismatch was reported for data in the
 configured calendar

---
 src/wam2layers/utils/calendar.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/utils/calendar.py b/src/wam2layers/utils/calendar.py
index a50772b..3c56568 100644
--- a/src/wam2layers/utils/calendar.py
+++ b/src/wam2layers/utils/calendar.py
@@ -67,8 +67,11 @@ def get_calendar_type(ds: xr.Dataset) -> str:
 
 def validate_calendar_type(config: "Config") -> None:
     file = template_to_files(config, var="ua")[0]
-    data_calendar = get_calendar_type(xr.open_dataset(file))
-    if data_calendar != config.calendar:
+    # With use_cftime the dates keep the calendar of the data. cftime knows calendars
+    # by one name: compare it with that of a configured date (noleap for 365_day).
+    with xr.open_dataset(file, use_cftime=True) as ds:
+        data_calendar = get_calendar_type(ds)
+    if data_calendar != config.preprocess_start_date.calendar:
         msg = (
             "Calendar mismatch detected:\n"
             f"    The configuration file has calendar type '{config.calendar}', "
-- 
2.43.0


From fa3ac5c0dc5db78ce18181de89f9f970da525400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:38 +0000
Subject: [PATCH 43/43] fix: the data checks failed on sound data and did not
 notice values that are too large

---
 src/wam2layers/analysis/checks.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/wam2layers/analysis/checks.py b/src/wam2layers/analysis/checks.py
index a5c78c1..572197c 100644
--- a/src/wam2layers/analysis/checks.py
+++ b/src/wam2layers/analysis/checks.py
@@ -20,7 +20,8 @@ warnings.formatwarning = _warning_on_one_line
 
 def check_monotonic_increase(data, dim="level"):
     """Check if data is monotonically increasing in the given dimension."""
-    if not data.diff(dim).min() >= 0:
+    values = data.transpose(dim, ...).values
+    if (values[1:] < values[:-1]).any():
         warnings.warn(
             f"Data is not monotonically increasing in the dimension {dim} for {data.name}."
         )
@@ -28,7 +29,8 @@ def check_monotonic_increase(data, dim="level"):
 
 def check_monotonic_decrease(data, dim="level"):
     """Check if data is monotonically decreasing in the given dimension."""
-    if not data.diff(dim).max() <= 0:
+    values = data.transpose(dim, ...).values
+    if (values[1:] > values[:-1]).any():
         warnings.warn(
             f"Data is not monotonically decreasing in the dimension {dim} for {data.name}."
         )
@@ -80,20 +82,23 @@ def check_frequency(data, frequency):
 
 def check_shape(data, ndim):
     if data.ndim != ndim:
-        warnings.warn("Expected 3 dimensions, found {data.ndim} for {data.name}.")
+        warnings.warn(
+            f"Expected {ndim} dimensions, found {data.ndim} for {data.name}."
+        )
 
 
 def check_range(data, range):
-    if not data.min() >= range[0] and data.max() <= range[1]:
-        warnings.warn(f"Data for {data.name} is not within the range {min} to {max}.")
+    if not (data.min() >= range[0] and data.max() <= range[1]):
+        warnings.warn(
+            f"Data for {data.name} is not within the range {range[0]} to {range[1]}."
+        )
 
 
 def check_uniform(coord):
     spacing = np.diff(coord)
-    if not spacing.min() == spacing.max():
-        warnings.warn(
-            f"Coordinate spacing is not uniform for coord {coord} of {data.name}"
-        )
+    tolerance = 1e-3 * np.abs(spacing)  # coordinates are rounded
+    if (np.abs(spacing - spacing[:1]) > tolerance).any():
+        warnings.warn(f"Coordinate spacing is not uniform for coord {coord.name}")
 
 
 def check_coords(data, coords):
@@ -103,10 +108,10 @@ def check_coords(data, coords):
             warnings.warn(f"Data for {data.name} does not have a coordinate {coord}.")
         else:
             check_uniform(data[coord])
-        if coord == "latitude":
-            check_monotonic_decrease(data[coord], dim=coord)
-        else:
-            check_monotonic_increase(data[coord], dim=coord)
+            if coord == "latitude":
+                check_monotonic_decrease(data[coord], dim=coord)
+            else:
+                check_monotonic_increase(data[coord], dim=coord)
 
 
 def check_input(data):
-- 
2.43.0

