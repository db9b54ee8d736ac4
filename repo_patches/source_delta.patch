From f3962fdb875e24efda8fbf871592b8c743e66ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:02 +0000
Subject: [PATCH 01/14] fix: ray offset table entry -1.1481 (was -0.1481),
 38.901 table 7.5-3

---
 OpenNTN/rays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/rays.py b/OpenNTN/rays.py
index 507b1ca..aab9000 100644
--- a/OpenNTN/rays.py
+++ b/OpenNTN/rays.py
@@ -107,7 +107,7 @@ class RaysGenerator(Object):
                                          0.5129, -0.5129,
                                          0.6797, -0.6797,
                                          0.8844, -0.8844,
-                                         1.1481, -0.1481,
+                                         1.1481, -1.1481,
                                          1.5195, -1.5195,
                                          2.1551, -2.1551],
                                          self.rdtype)
-- 
2.43.0


From fa812ee11a4af5422f2cfe59492d211b39c75899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:02 +0000
Subject: [PATCH 02/14] fix: dual VH arrays use slant angles 0/90 degrees
 instead of -45/+45

---
 OpenNTN/antenna.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/antenna.py b/OpenNTN/antenna.py
index 39783ab..c505da4 100644
--- a/OpenNTN/antenna.py
+++ b/OpenNTN/antenna.py
@@ -524,7 +524,7 @@ class PanelArray(Object):
         else:
             assert polarization_type in ["VH", "cross"],\
             "For dual polarization, polarization_type must be 'VH' or 'cross'"
-            slant_angle = 0 if polarization == "VH" else -PI/4
+            slant_angle = 0 if polarization_type == "VH" else -PI/4
             self._ant_pol1 = AntennaElement(antenna_pattern, slant_angle,
                 self.precision)
             self._ant_pol2 = AntennaElement(antenna_pattern, slant_angle+PI/2,
-- 
2.43.0


From 32895c72b8e527b7e9c02b462050cf3b2fcbf754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:02 +0000
Subject: [PATCH 03/14] fix: LOS arrival direction is the reverse of the
 departure direction

---
 OpenNTN/system_level_scenario.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index 7f65ec0..89ea3be 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -824,7 +824,7 @@ class SystemLevelScenario(Object):
         los_aod = tf.atan2(delta_loc[:,:,:,1], delta_loc[:,:,:,0])
         los_aoa = los_aod + PI
         los_zod = tf.atan2(distance_2d, delta_loc[:,:,:,2])
-        los_zoa = los_zod - PI
+        los_zoa = PI - los_zod
         # Angles are converted to degrees and wrapped to (0,360)
         self._los_aod = wrap_angle_0_360(rad_2_deg(los_aod))
         self._los_aoa = wrap_angle_0_360(rad_2_deg(los_aoa))
-- 
2.43.0


From c2b4c30293c95d97677a5453b21996ff9d2bd74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:02 +0000
Subject: [PATCH 04/14] fix: users in every quadrant point at the platform

---
 OpenNTN/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index eaaf500..d40971b 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -982,7 +982,7 @@ def generate_uts_topology(  batch_size,
     ut_downtilt = tf.zeros([batch_size, num_ut]) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 180.0, rdtype)),rdtype)
     ut_slant = tf.zeros([batch_size, num_ut]) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 90.0, rdtype)),rdtype)
     #Always point at the BS, which is at [0,0,bs_height]
-    ut_bearing = tf.math.atan(ut_loc_xy[:,:,1]/ut_loc_xy[:,:,0])
+    ut_bearing = tf.math.atan2(ut_loc_xy[:,:,1], ut_loc_xy[:,:,0])
     ut_orientations = tf.stack([ut_bearing, ut_downtilt, ut_slant], axis=-1)
 
     return ut_loc, ut_orientations, ut_velocities, in_state
-- 
2.43.0


From e7a74423f7caca46ec02b6cf6e3d773633af1f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:45 +0000
Subject: [PATCH 05/14] fix: effective turbulent path length of ITU-R P.618
 (misplaced parenthesis)

---
 OpenNTN/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index d40971b..689d5b5 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -1717,7 +1717,7 @@ def compute_pathloss_scintilation(self):
             #  Calculate the effective path length
             hL = 1000 # Height of turbulent layer in meters
             Elev = self._elevation_angle
-            L = (2 * hL) / (tf.math.sqrt(tf.math.sin(math.radians(Elev))**2 + 2.35e-4 + tf.math.sin(math.radians(Elev))))
+            L = (2 * hL) / (tf.math.sqrt(tf.math.sin(math.radians(Elev))**2 + 2.35e-4) + tf.math.sin(math.radians(Elev)))
                 
             # Step 5: Calculate the effective antenna diameter
             D = self._diameter_earth_antenna # antenna diameter in meters
-- 
2.43.0


From 0c236804c4315860383ec45bfe39248eea248bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:45 +0000
Subject: [PATCH 06/14] fix: no NaN scintillation loss for large ground
 antennas

---
 OpenNTN/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index 689d5b5..2542628 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -1726,7 +1726,8 @@ def compute_pathloss_scintilation(self):
             # Step 6: Calculate the antenna averaging factor
 
             x = (1.22 * Deff**2 * f) / L
-            g = tf.math.sqrt(3.86 * (x**2 + 1)**(11/12) * tf.math.sin((11/6) * tf.math.atan(1/x)) - 7.08 * x**(5/6))
+            # A negative argument (x >= 7.0) means no scintillation fading, see ITU-R P.618
+            g = tf.math.sqrt(tf.maximum(3.86 * (x**2 + 1)**(11/12) * tf.math.sin((11/6) * tf.math.atan(1/x)) - 7.08 * x**(5/6), 0.0))
 
             # Step 7: Calculate the standard deviation of the signal for the period and propagation path
             g_x = (ref * f**(7/12) * g) / (math.sin(math.radians(Elev))**1.2)
-- 
2.43.0


From bc8053e98577393ffd8437f908d89dc4af33f9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:45 +0000
Subject: [PATCH 07/14] fix: disabling shadow fading also removes it from the
 basic path loss

---
 OpenNTN/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index 2542628..67f34f9 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -1778,6 +1778,10 @@ def compute_pathloss_basic(self):
         SF_los = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_los)
         SF_nlos = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_nlos)
 
+        if not self._enable_shadow_fading:
+            SF_los = tf.zeros_like(SF_los)
+            SF_nlos = tf.zeros_like(SF_nlos)
+
         pl_los = fspl + SF_los
         pl_nlos = fspl + SF_nlos + cl
         pl_b = tf.where(self.los, pl_los, pl_nlos)
-- 
2.43.0


From 34141f349c03a2f52036946297d0dc804219751e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:06 +0000
Subject: [PATCH 08/14] fix: set_topology keeps earlier atmospheric parameters
 and applies atmosphere-only updates

---
 OpenNTN/system_level_scenario.py | 46 +++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index 89ea3be..f531204 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -122,6 +122,17 @@ class SystemLevelScenario(Object):
         self._in_state = None
         self._requested_los = None
 
+        # Standard atmosphere, used until specified otherwise
+        self._latitude = 47
+        self._lwc = 0.41
+        self._rain_rate = 40
+        self._atmospheric_pressure = 1020
+        self._temperature = 273
+        self._water_vapor_density = 7.5
+        self._relative_humidity = 50
+        self._diameter_earth_antenna = 3.6
+        self._antenna_efficiency = 0.5
+
         # Load parameters for this scenario
         self._load_params()
 
@@ -569,51 +580,45 @@ class SystemLevelScenario(Object):
         # state of UTs, or LoS/NLoS states of outdoor UTs are updated.
         need_for_update = False
 
-        #Setting values to standard values if not further specified
+        # Boolean used to keep track of whether or not the gas and scintillation
+        # losses need to be recomputed
+        atmosphere_updated = False
+
         if latitude is not None:
             self._latitude = latitude
-        else:
-            self._latitude = 47
+            atmosphere_updated = True
 
         if lwc is not None:
             self._lwc = lwc
-        else:
-            self._lwc = 0.41
+            atmosphere_updated = True
 
         if rain_rate is not None:
             self._rain_rate = rain_rate
-        else:
-            self._rain_rate = 40
+            atmosphere_updated = True
 
         if atmospheric_pressure is not None:
             self._atmospheric_pressure = atmospheric_pressure
-        else:
-            self._atmospheric_pressure = 1020
+            atmosphere_updated = True
 
         if temperature is not None:
             self._temperature = temperature
-        else:
-            self._temperature = 273
+            atmosphere_updated = True
 
         if water_vapor_density is not None:
             self._water_vapor_density = water_vapor_density
-        else:
-            self._water_vapor_density = 7.5
+            atmosphere_updated = True
 
         if relative_humidity is not None:
             self._relative_humidity = relative_humidity
-        else:
-            self._relative_humidity = 50
+            atmosphere_updated = True
 
         if diameter_earth_antenna is not None:
             self._diameter_earth_antenna = diameter_earth_antenna
-        else:
-            self._diameter_earth_antenna = 3.6
+            atmosphere_updated = True
 
         if antenna_efficiency is not None:
             self._antenna_efficiency = antenna_efficiency
-        else:
-            self._antenna_efficiency = 0.5
+            atmosphere_updated = True
 
         if ut_loc is not None:
             self._ut_loc = ut_loc
@@ -661,6 +666,9 @@ class SystemLevelScenario(Object):
             #The 3GPP model only considers the losses given above. However, there also are
             #models for additional losses due to clouds and rain, which are considered in this function
             #self._compute_pathloss_additional()
+        elif atmosphere_updated:
+            self._compute_pathloss_gas()
+            self._compute_pathloss_scintillation()
         return need_for_update
 
     def spatial_correlation_matrix(self, correlation_distance):
-- 
2.43.0


From 8d26570fd42f6b5e4bb403afb92b7dedf576c54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:32 +0000
Subject: [PATCH 09/14] fix: platform height is used per batch example
 (distance, Doppler, Faraday, departure spreads)

---
 OpenNTN/channel_coefficients.py  | 32 ++++++++++++++++++++------------
 OpenNTN/rays.py                  | 12 ++++++++----
 OpenNTN/system_level_channel.py  |  2 +-
 OpenNTN/system_level_scenario.py | 15 ++++++---------
 4 files changed, 35 insertions(+), 26 deletions(-)

diff --git a/OpenNTN/channel_coefficients.py b/OpenNTN/channel_coefficients.py
index c7813c2..b892324 100644
--- a/OpenNTN/channel_coefficients.py
+++ b/OpenNTN/channel_coefficients.py
@@ -606,10 +606,13 @@ class ChannelCoefficientsGenerator(Object):
         exponent = 2*PI/lambda_0*tf.reduce_sum(r_hat_ut*v_uts_bar, -2)*t
 
         # Check if a satellite is used (height of satellite is at least 600km). This is done to potentially incorporate HAPS later
-        if tf.logical_and(tf.less_equal(600000.0, topology.bs_height), topology.doppler_enabled):
+        # The check is done per batch example, as their platforms can be at different heights.
+        is_satellite = tf.greater_equal(topology.bs_height, 600000.0)
+        if tf.logical_and(tf.reduce_any(is_satellite), topology.doppler_enabled):
             # We get the maximum speed of the satellite based on its orbit and the users elevation angle. This value is multiplied with a random constant between [cos(0),cos(2pi))
             # to simulate the random direction of the orbit in relation to the users. 
-            max_sat_speed_for_elevation_angle = topology.sat_speed
+            max_sat_speed_for_elevation_angle = tf.where(is_satellite,
+                topology.sat_speed, tf.zeros_like(topology.sat_speed))
             # The Doppler shift induced phase shift between each time step
             max_rotation_per_time = (2.0*PI/lambda_0)*max_sat_speed_for_elevation_angle
 
@@ -872,11 +875,9 @@ class ChannelCoefficientsGenerator(Object):
         h_phase = self._step_11_phase_matrix(phi, rays)
 
         # Add Faraday phase rotation in NTN case
-        if tf.greater_equal(topology.bs_height, 600000.0):            
-            rays_shape = tf.shape(rays.aoa)
-            faraday_phase_rotation = self._step_11_faraday_rotation(carrier_frequency=carrier_frequency, aod_shape=rays_shape)
-            h_phase = tf.matmul(h_phase,faraday_phase_rotation)
-            
+        h_phase = self._step_11_apply_faraday(h_phase, topology,
+            carrier_frequency, tf.shape(rays.aoa))
+
         h_field = self._step_11_field_matrix(topology, rays.aoa, rays.aod,
                                                     rays.zoa, rays.zod, h_phase)
         h_array = self._step_11_array_offsets(topology, rays.aoa, rays.aod,
@@ -1020,11 +1021,8 @@ class ChannelCoefficientsGenerator(Object):
                                          [1,1,1,1,1,2,2])
         
         # Add Faraday phase rotation in NTN case
-        if tf.greater_equal(topology.bs_height, 600000.0):
-
-            rays_shape = tf.shape(aoa)
-            faraday_phase_rotation = self._step_11_faraday_rotation(carrier_frequency=carrier_frequency, aod_shape=rays_shape)
-            h_phase = tf.matmul(h_phase,faraday_phase_rotation)
+        h_phase = self._step_11_apply_faraday(h_phase, topology,
+            carrier_frequency, tf.shape(aoa))
 
         h_field = self._step_11_field_matrix(topology, aoa, aod, zoa, zod,
                                                                     h_phase)
@@ -1105,6 +1103,16 @@ class ChannelCoefficientsGenerator(Object):
 
         return h, delays_nlos
     
+    def _step_11_apply_faraday(self, h_phase, topology, carrier_frequency,
+                               aod_shape):
+        """Apply the Faraday rotation to ``h_phase`` for the batch examples
+        in which the platform is a satellite (at least 600 km high)"""
+        rotated = tf.matmul(h_phase, self._step_11_faraday_rotation(
+            carrier_frequency=carrier_frequency, aod_shape=aod_shape))
+        is_satellite = tf.greater_equal(topology.bs_height, 600000.0)
+        is_satellite = tf.reshape(is_satellite, [-1,1,1,1,1,1,1])
+        return tf.where(is_satellite, rotated, h_phase)
+
     def _step_11_faraday_rotation(self, carrier_frequency, aod_shape):
         carrier_frequency_in_GHz = carrier_frequency/(1e9)
         psi_in_deg = 108.0/(carrier_frequency_in_GHz*carrier_frequency_in_GHz)
diff --git a/OpenNTN/rays.py b/OpenNTN/rays.py
index aab9000..b77fb3a 100644
--- a/OpenNTN/rays.py
+++ b/OpenNTN/rays.py
@@ -431,8 +431,10 @@ class RaysGenerator(Object):
             azimuth_angles_los = scenario.los_aod
             cluster_angle_spread = scenario.get_param('cASD')
             #Spread is 0 for satellite cases
-            if self._scenario.bs_loc[0,0,2] >= 160000:
-                azimuth_spread = tf.zeros_like(azimuth_spread)
+            is_satellite = self._scenario.bs_loc[:,:,2] >= 160000.
+            is_satellite = tf.reshape(is_satellite, [batch_size, num_bs, 1, 1])
+            azimuth_spread = tf.where(is_satellite,
+                tf.zeros_like(azimuth_spread), azimuth_spread)
             
         else:
             azimuth_angles_los = scenario.los_aoa
@@ -596,8 +598,10 @@ class RaysGenerator(Object):
             cluster_angle_spread = (3./8.)*tf.math.pow(tf.constant(10.,
                 self.rdtype),
                 scenario.lsp_log_mean[:,:,:,6])
-            if self._scenario.bs_loc[0,0,2] >= 160000:
-                zenith_spread = tf.zeros_like(zenith_spread)
+            is_satellite = self._scenario.bs_loc[:,:,2] >= 160000.
+            is_satellite = tf.reshape(is_satellite, [batch_size, num_bs, 1, 1])
+            zenith_spread = tf.where(is_satellite,
+                tf.zeros_like(zenith_spread), zenith_spread)
         else:
             cluster_angle_spread = scenario.get_param('cZSA')
             zenith_angles_los = scenario.los_zoa
diff --git a/OpenNTN/system_level_channel.py b/OpenNTN/system_level_channel.py
index 7e0cad6..f4860cc 100644
--- a/OpenNTN/system_level_channel.py
+++ b/OpenNTN/system_level_channel.py
@@ -209,7 +209,7 @@ class SystemLevelChannel(ChannelModel):
                                 distance_3d=self._scenario.distance_3d,
                                 tx_orientations=tx_orientations,
                                 rx_orientations=rx_orientations,
-                                bs_height = self._scenario._bs_loc[:,:,2][0],
+                                bs_height = self._scenario.bs_loc[:,0,2],
                                 elevation_angle = self._scenario.elevation_angle,
                                 doppler_enabled = self._scenario.doppler_enabled
                                 )
diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index f531204..b6f755e 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -810,22 +810,19 @@ class SystemLevelScenario(Object):
         # 3D distances for all BS-UT pairs
         # The 3D distance needs to take the curvature of Earth into account
         elevation_angle = self._elevation_angle
-        #convert to radians for tf.math.sin later
+        #convert to radians for math.sin later
         elevation_angle = math.radians(elevation_angle)
         #Radius of the Earth
         R_E = 6371000
  
         #satellite height 
-        height_val = self._bs_loc[:,:,2][0]
+        # [batch size, number of BSs, 1]
+        height_val = tf.expand_dims(self._bs_loc[:,:,2], axis=2)
         #Calculating the 3d distance based on 3GPP TR38.811 6.6-3 to consider the Earth's curveture
-        distance_3d = (tf.sqrt(R_E**2 * tf.math.sin(elevation_angle)**2 + height_val**2 + 2*height_val*R_E) - R_E*tf.math.sin(elevation_angle))
+        distance_3d = (tf.sqrt(R_E**2 * math.sin(elevation_angle)**2 + height_val**2 + 2*height_val*R_E) - R_E*math.sin(elevation_angle))
         #Expanding to correct shape
-        # TODO there is a sometimes occuring bug at this point. The squeeze assumes there to be more than one user, which can run into issues. However,
-        # this bug is not yet fully understood and seems to be limited to eager executions. For the future this needs to be fixed. This bug is also assumed
-        # to cause the infinite GPU memory allocation in eager execution during the use of the LMMSEEqualizer. 
-        # Additionally, tf.squeeze is used here, as distance_3d needs to be a tf.constant, but casting that directly lead to bugs. This workaround works well,
-        # but should be replaced by a more straightforward solution in the future.
-        distance_3d = tf.fill([self.batch_size, self.num_bs, self.num_ut], tf.squeeze(distance_3d))
+        distance_3d = tf.broadcast_to(distance_3d,
+            [self.batch_size, self.num_bs, self.num_ut])
         self._distance_3d = distance_3d
 
         # LoS AoA, AoD, ZoA, ZoD
-- 
2.43.0


From 0f24a335932eb51ee6be95a9ac7a82c376abadaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:28 +0000
Subject: [PATCH 10/14] fix: precision="double" and integer topology parameters
 work end to end

---
 OpenNTN/antenna.py              |  4 +-
 OpenNTN/channel_coefficients.py | 15 +++---
 OpenNTN/dense_urban_scenario.py |  2 +-
 OpenNTN/sub_urban_scenario.py   |  2 +-
 OpenNTN/urban_scenario.py       |  2 +-
 OpenNTN/utils.py                | 81 +++++++++++++++++++++++----------
 6 files changed, 69 insertions(+), 37 deletions(-)

diff --git a/OpenNTN/antenna.py b/OpenNTN/antenna.py
index c505da4..7824167 100644
--- a/OpenNTN/antenna.py
+++ b/OpenNTN/antenna.py
@@ -187,8 +187,8 @@ class AntennaElement(Object):
 
         ka = a * 2 * math.pi
         r = tf.acos(tf.sin(theta) * tf.cos(phi))
-        amplitude = tf.where(0.0 == r, tf.cast(1.0, tf.float32), 4 * tf.abs(tf.math.special.bessel_j1(tf.sin(r)*ka) / (ka * tf.sin(r))) ** 2)
-        return tf.where(tf.abs(r) > 0.5*math.pi, tf.cast(0.0, tf.float32), amplitude)
+        amplitude = tf.where(0.0 == r, tf.cast(1.0, theta.dtype), 4 * tf.abs(tf.math.special.bessel_j1(tf.sin(r)*ka) / (ka * tf.sin(r))) ** 2)
+        return tf.where(tf.abs(r) > 0.5*math.pi, tf.cast(0.0, theta.dtype), amplitude)
 
     def _radiation_pattern_co_phased_DLp(self, theta, phi):
         """
diff --git a/OpenNTN/channel_coefficients.py b/OpenNTN/channel_coefficients.py
index b892324..968a815 100644
--- a/OpenNTN/channel_coefficients.py
+++ b/OpenNTN/channel_coefficients.py
@@ -17,7 +17,7 @@ from tensorflow import sin, cos, acos
 
 from sionna.phy.constants import PI, SPEED_OF_LIGHT
 from sionna.phy.block import Object
-from sionna.phy.channel.tr38811.utils import compute_satellite_speed
+from sionna.phy.channel.tr38811.utils import compute_satellite_speed, to_dtype
 
 class Topology(Object):
     # pylint: disable=line-too-long
@@ -97,9 +97,9 @@ class Topology(Object):
         # self.sat_speed = None
         # if tf.reduce_any(tf.greater_equal(bs_height, 600000.0)):
         sat_speed = compute_satellite_speed(bs_height)
-        max_sat_speed_for_elevation_angle = tf.math.cos(elevation_angle * (PI/180.0)) * sat_speed
+        max_sat_speed_for_elevation_angle = tf.math.cos(to_dtype(elevation_angle, sat_speed.dtype) * (PI/180.0)) * sat_speed
         batch_size = tf.shape(los_aoa)[0]
-        random_direction_per_batch = tf.random.uniform(minval=0, maxval=2*PI, shape = [batch_size])
+        random_direction_per_batch = tf.random.uniform(minval=0, maxval=2*PI, shape = [batch_size], dtype = sat_speed.dtype)
         self.sat_speed = tf.math.cos(random_direction_per_batch) * max_sat_speed_for_elevation_angle
 
 
@@ -1118,10 +1118,11 @@ class ChannelCoefficientsGenerator(Object):
         psi_in_deg = 108.0/(carrier_frequency_in_GHz*carrier_frequency_in_GHz)
         # TODO there is a bug report here,  appearently passing a Tensor to a NumPy call, which is not supported. Assumably psi in the functions is the issue,
         # but the bug could not yet be replicated. This comment serves as a reminder in case of future resurgence of the issue
-        psi_in_rad = psi_in_deg * (PI/180.0)
-        faraday_cos = tf.fill(dims=aod_shape, value=tf.complex(tf.math.cos(psi_in_rad), 0.0))
-        faraday_sin = tf.fill(dims=aod_shape, value=tf.complex(tf.math.sin(psi_in_rad), 0.0))
-        faraday_minus_sin = tf.fill(dims=aod_shape, value=tf.complex(-tf.math.sin(psi_in_rad), 0.0))
+        psi_in_rad = to_dtype(psi_in_deg * (PI/180.0), self.rdtype)
+        zero = tf.constant(0.0, self.rdtype)
+        faraday_cos = tf.fill(dims=aod_shape, value=tf.complex(tf.math.cos(psi_in_rad), zero))
+        faraday_sin = tf.fill(dims=aod_shape, value=tf.complex(tf.math.sin(psi_in_rad), zero))
+        faraday_minus_sin = tf.fill(dims=aod_shape, value=tf.complex(-tf.math.sin(psi_in_rad), zero))
         shape = tf.concat([tf.shape(faraday_cos), [2,2]], axis=-1)
         faraday_phase_rot = tf.reshape(tf.stack([faraday_cos, faraday_minus_sin, faraday_sin, faraday_cos], axis=-1), shape)
         return faraday_phase_rot
diff --git a/OpenNTN/dense_urban_scenario.py b/OpenNTN/dense_urban_scenario.py
index acf1214..aaecd07 100644
--- a/OpenNTN/dense_urban_scenario.py
+++ b/OpenNTN/dense_urban_scenario.py
@@ -130,7 +130,7 @@ class DenseUrbanScenario(SystemLevelScenario):
         angle_str = str(round(self._elevation_angle/10.0)*10)
         los_p = self._params_los["LoS_p" + '_' + angle_str]
         #self._distance_2d_out already has desired shape, this it is used here to keep the code shorter
-        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out)) + los_p
+        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out), dtype = self.rdtype) + los_p
 
         return los_probability
 
diff --git a/OpenNTN/sub_urban_scenario.py b/OpenNTN/sub_urban_scenario.py
index b476708..1ef1fa0 100644
--- a/OpenNTN/sub_urban_scenario.py
+++ b/OpenNTN/sub_urban_scenario.py
@@ -132,7 +132,7 @@ class SubUrbanScenario(SystemLevelScenario):
         los_p = self._params_los["LoS_p" + '_' + angle_str]
         #self._distance_2d_out already has desired shape, this it is used here to keep the code shorter
         #los_probability = tf.zeros(shape=self._distance_2d_out.shape) + los_p
-        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out)) + los_p
+        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out), dtype = self.rdtype) + los_p
         return los_probability
 
     @property
diff --git a/OpenNTN/urban_scenario.py b/OpenNTN/urban_scenario.py
index c8e9cdc..0435dda 100644
--- a/OpenNTN/urban_scenario.py
+++ b/OpenNTN/urban_scenario.py
@@ -131,7 +131,7 @@ class UrbanScenario(SystemLevelScenario):
         los_p = self._params_los["LoS_p" + '_' + angle_str]
         #self._distance_2d_out already has desired shape, this it is used here to keep the code shorter
         #los_probability = tf.zeros(shape=self._distance_2d_out.shape) + los_p
-        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out)) + los_p
+        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out), dtype = self.rdtype) + los_p
         
         return los_probability
 
diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index 67f34f9..635ec47 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -117,10 +117,10 @@ def time_frequency_vector(num_samples, sample_duration, precision=None):
 
     # Time vector
     t = tf.cast(tf.linspace(n_min, n_max, num_samples), rdtype) \
-        * tf.cast(sample_duration, rdtype)
+        * to_dtype(sample_duration, rdtype)
 
     # Frequency vector
-    df = tf.cast(1.0/sample_duration, rdtype)/tf.cast(num_samples, rdtype)
+    df = to_dtype(1.0/sample_duration, rdtype)/tf.cast(num_samples, rdtype)
     f = tf.cast(tf.linspace(n_min, n_max, num_samples), rdtype) \
         * tf.cast(df, rdtype)
 
@@ -483,6 +483,30 @@ def rad_2_deg(x):
     """
     return x*tf.constant(180.0/PI, x.dtype)
 
+def to_dtype(x, dtype):
+    r"""
+    Convert ``x`` to a tensor of type ``dtype``
+
+    Other than ``tf.cast``, Python numbers are not rounded to single precision
+    on their way to ``dtype``.
+
+    Input
+    ------
+        x : Tensor or number
+            Value to convert
+
+        dtype : tf.DType
+            Type of the output
+
+    Output
+    -------
+        y : Tensor
+            ``x`` as ``dtype``
+    """
+    if tf.is_tensor(x):
+        return tf.cast(x, dtype)
+    return tf.constant(x, dtype)
+
 def wrap_angle_0_360(angle):
     r"""
     Wrap ``angle`` to (0,360)
@@ -584,7 +608,7 @@ def drop_uts_in_sector(batch_size, num_ut, bs_height, elevation_angle, isd,
     
     actual_bs_ut_distance = tf.cast(bs_height, rdtype) / tf.cast(tf.math.sin(deg_2_rad(tf.cast(elevation_angle,rdtype))),rdtype)
     distance_center_to_ut = tf.math.sqrt(tf.math.square(actual_bs_ut_distance) - tf.math.square(bs_height))
-    x_base = tf.random.uniform(shape = [1], minval=0,maxval=distance_center_to_ut)
+    x_base = tf.random.uniform(shape = [1], minval=0,maxval=distance_center_to_ut, dtype=rdtype)
     y_base = tf.math.sqrt(tf.math.square(actual_bs_ut_distance) - tf.math.square(bs_height) - tf.math.square(x_base))
 
     # Randomly assign the UTs to one of the two half of the sector
@@ -764,6 +788,13 @@ def set_3gpp_scenario_parameters(   scenario,
     if max_ut_velocity is None:
         max_ut_velocity = default_scenario_par[scenario]['max_ut_velocity']
 
+    # Values given by the user can be int or have another precision
+    isd, bs_height, elevation_angle, min_ut_height, max_ut_height,\
+        indoor_probability, min_ut_velocity, max_ut_velocity = [
+            to_dtype(v, rdtype) for v in
+            (isd, bs_height, elevation_angle, min_ut_height, max_ut_height,
+             indoor_probability, min_ut_velocity, max_ut_velocity)]
+
     return isd, bs_height, elevation_angle, min_ut_height, max_ut_height,\
             indoor_probability, min_ut_velocity, max_ut_velocity
 
@@ -979,8 +1010,8 @@ def generate_uts_topology(  batch_size,
                                 axis=-1)
 
     
-    ut_downtilt = tf.zeros([batch_size, num_ut]) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 180.0, rdtype)),rdtype)
-    ut_slant = tf.zeros([batch_size, num_ut]) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 90.0, rdtype)),rdtype)
+    ut_downtilt = tf.zeros([batch_size, num_ut], rdtype) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 180.0, rdtype)),rdtype)
+    ut_slant = tf.zeros([batch_size, num_ut], rdtype) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 90.0, rdtype)),rdtype)
     #Always point at the BS, which is at [0,0,bs_height]
     ut_bearing = tf.math.atan2(ut_loc_xy[:,:,1], ut_loc_xy[:,:,0])
     ut_orientations = tf.stack([ut_bearing, ut_downtilt, ut_slant], axis=-1)
@@ -1470,7 +1501,7 @@ def exp_corr_mat(a, n, precision=None):
         cdtype = dtypes[precision]["tf"]["cdtype"]
     
     # Cast to desired output dtype and expand last dimension for broadcasting
-    a = tf.cast(a, dtype=cdtype)
+    a = to_dtype(a, cdtype)
     a = tf.expand_dims(a, -1)
 
     # Check that a is valid
@@ -1557,8 +1588,8 @@ def one_ring_corr_mat(phi_deg, num_ant, d_h=0.5, sigma_phi_deg=15,
         warnings.warn("sigma_phi_deg should be smaller than 15.")
 
     # Convert all inputs to radians
-    phi_deg = tf.cast(phi_deg, dtype=rdtype)
-    sigma_phi_deg = tf.cast(sigma_phi_deg, dtype=rdtype)
+    phi_deg = to_dtype(phi_deg, rdtype)
+    sigma_phi_deg = to_dtype(sigma_phi_deg, rdtype)
     phi = deg_2_rad(phi_deg)
     sigma_phi = deg_2_rad(sigma_phi_deg)
 
@@ -1600,11 +1631,11 @@ def compute_pathloss_gas(self):
         """
 
         # Constants set during scenario creation 
-        T=self._temperature
-        p=self._atmospheric_pressure
+        T=to_dtype(self._temperature, self.rdtype)
+        p=to_dtype(self._atmospheric_pressure, self.rdtype)
 
         f = self._carrier_frequency/(10.0**9.0)
-        pw=self._water_vapor_density#water vapor density
+        pw=to_dtype(self._water_vapor_density, self.rdtype)#water vapor density
         
         # Calculate the water vapor specific attenuation(Yw)
         # For more detail see ITU-R P.676-5 (23a)
@@ -1639,11 +1670,11 @@ def compute_pathloss_gas(self):
         ee6=(rp**0.2445)*(rt**(-5.9191))*tf.math.exp((0.0422*(1-rp))+(-8.0719*(1-rt)))
         ee7=(rp**(-0.1833))*(rt**(6.5589))*tf.math.exp((-0.2402*(1-rp))+(6.131*(1-rt)))
 
-        g54 = 2.136 * rp**1.4975 * rt**(-1.5852) * math.exp((-2.5196)*(1-rt))
-        g57 = 9.984 * rp**0.9313 * rt**(2.6732) * math.exp((0.8563)*(1-rt))
-        g60 = 15.42 * rp**0.8595 * rt**(3.6178) * math.exp((1.1521)*(1-rt))
-        g63 = 10.63 * rp**0.9298 * rt**(2.3284) * math.exp((0.6287)*(1-rt))
-        g66 = 1.944 * rp**1.6657 * rt**(-3.3714) * math.exp((-4.1643)*(1-rt))
+        g54 = 2.136 * rp**1.4975 * rt**(-1.5852) * tf.math.exp((-2.5196)*(1-rt))
+        g57 = 9.984 * rp**0.9313 * rt**(2.6732) * tf.math.exp((0.8563)*(1-rt))
+        g60 = 15.42 * rp**0.8595 * rt**(3.6178) * tf.math.exp((1.1521)*(1-rt))
+        g63 = 10.63 * rp**0.9298 * rt**(2.3284) * tf.math.exp((0.6287)*(1-rt))
+        g66 = 1.944 * rp**1.6657 * rt**(-3.3714) * tf.math.exp((-4.1643)*(1-rt))
 
         
         # Calculation of the dry air specific attenuation 
@@ -1684,10 +1715,10 @@ def compute_pathloss_gas(self):
             
         # Calculate the total gases attenuation for the given elevation
         Elev = self._elevation_angle
-        Atotx = (Ao + Aw) / tf.math.sin(math.radians(Elev))
+        Atotx = (Ao + Aw) / math.sin(math.radians(Elev))
         GasAtt = abs(Atotx)
 
-        pl_g = tf.zeros(shape = tf.shape(self.los)) + GasAtt
+        pl_g = tf.zeros(shape = tf.shape(self.los), dtype = self.rdtype) + GasAtt
 
         self._pl_g = pl_g
             
@@ -1717,7 +1748,7 @@ def compute_pathloss_scintilation(self):
             #  Calculate the effective path length
             hL = 1000 # Height of turbulent layer in meters
             Elev = self._elevation_angle
-            L = (2 * hL) / (tf.math.sqrt(tf.math.sin(math.radians(Elev))**2 + 2.35e-4) + tf.math.sin(math.radians(Elev)))
+            L = (2 * hL) / (math.sqrt(math.sin(math.radians(Elev))**2 + 2.35e-4) + math.sin(math.radians(Elev)))
                 
             # Step 5: Calculate the effective antenna diameter
             D = self._diameter_earth_antenna # antenna diameter in meters
@@ -1739,7 +1770,7 @@ def compute_pathloss_scintilation(self):
             TroScin = a_p * g_x
 
             TScin=abs(TroScin)
-            pl_s = tf.zeros(shape = tf.shape(self.los)) + TScin
+            pl_s = tf.zeros(shape = tf.shape(self.los), dtype = self.rdtype) + TScin
             self._pl_s = pl_s
             
         #For carrier frequencies below 6GHz we only consider Ionospheric scintillation    
@@ -1752,14 +1783,14 @@ def compute_pathloss_scintilation(self):
             #Scale scintillation pathloss at 4GHz to used carrier frequency by applying 3GPP TR38.811 6.6-12
             AIs = Pluc_4GHz * (f/4)**(n)
             #Get final loss by dividing by sqrt(2) according to 3GPP TR38.811 6.6-13
-            pl_s = tf.zeros(shape = tf.shape(self.los)) + (AIs/math.sqrt(2.0))
+            pl_s = tf.zeros(shape = tf.shape(self.los), dtype = self.rdtype) + (AIs/math.sqrt(2.0))
             self._pl_s = pl_s
         
 
 
 def compute_pathloss_entry(self):
         #Currently only 0, as no HAPS are considered an thus no building cases
-        pl_e = tf.zeros(shape = tf.shape(self.los))
+        pl_e = tf.zeros(shape = tf.shape(self.los), dtype = self.rdtype)
         self._pl_e = pl_e
         #ntnu.compute_pathloss_gas(self)
 
@@ -1775,8 +1806,8 @@ def compute_pathloss_basic(self):
         sigmaSF_los = self._params_los["sigmaSF" + '_' + angle_str]
         sigmaSF_nlos = self._params_nlos["sigmaSF" + '_' + angle_str]
 
-        SF_los = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_los)
-        SF_nlos = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_nlos)
+        SF_los = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_los, dtype = self.rdtype)
+        SF_nlos = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_nlos, dtype = self.rdtype)
 
         if not self._enable_shadow_fading:
             SF_los = tf.zeros_like(SF_los)
@@ -1952,7 +1983,7 @@ def compute_pathloss_additional(self):
 
         total_att = Ratt + CAtten
 
-        pl_a = tf.zeros(shape = tf.shape(self.los)) + total_att
+        pl_a = tf.zeros(shape = tf.shape(self.los), dtype = self.rdtype) + total_att
 
         self._pl_a = pl_a
 
-- 
2.43.0


From bdb6335b7ff2154efbfd25b0f75f642c08529406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:09 +0000
Subject: [PATCH 11/14] fix: no NaN large-scale parameters for users at the
 same place

---
 OpenNTN/lsp.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/OpenNTN/lsp.py b/OpenNTN/lsp.py
index f98f449..a753c9c 100644
--- a/OpenNTN/lsp.py
+++ b/OpenNTN/lsp.py
@@ -395,8 +395,17 @@ class LSPGenerator(Object):
         # Compute and store the square root of the spatial correlation matrix
 
         #If we are in DL, the ASD and ZSD are -inf and there is no correlation   
-        self._spatial_lsp_correlation_matrix_sqrt = tf.linalg.cholesky(
-                spatial_lsp_correlation)
+        sqrt = tf.linalg.cholesky(spatial_lsp_correlation)
+
+        # UTs at (almost) the same place make the matrix singular up to rounding.
+        # Only then, the correlation is reduced by a negligible amount.
+        eps = tf.constant(1e-4, self.rdtype)
+        sqrt_regularized = tf.linalg.cholesky((1.-eps)*spatial_lsp_correlation
+            + eps*tf.eye(self._scenario.num_ut, dtype=self.rdtype))
+        is_valid = tf.reduce_all(tf.math.is_finite(sqrt), axis=[-2,-1],
+                                 keepdims=True)
+        self._spatial_lsp_correlation_matrix_sqrt = tf.where(is_valid, sqrt,
+                                                             sqrt_regularized)
 
 
     """
-- 
2.43.0


From 5ea112b9f6ec90f9201f5699664928f0ee2e08e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:17 +0000
Subject: [PATCH 12/14] fix: gas attenuation can be traced in double precision

---
 OpenNTN/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index 635ec47..de65a71 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -1680,14 +1680,14 @@ def compute_pathloss_gas(self):
         # Calculation of the dry air specific attenuation 
         # For more detail see ITU-R P.676-5 (22a)
         if tf.less_equal(f,60.0):
-            N = 0.0
+            N = tf.constant(0.0, self.rdtype)
         else:
-            N = -15.0
+            N = tf.constant(-15.0, self.rdtype)
         
         if tf.less_equal(f, 54.0):
             Yo=(((7.2*(rt**2.8))/((f**2)+(0.34*(rp**2)*(rt**1.6))))+((0.62*ee3)/(((54-f)**(1.16*ee1))+(0.83*ee2))))*((f**2)*(rp**2)*(10**(-3)))
 
-        elif tf.less(54.0,f) and tf.less_equal(f, 66.0):
+        elif tf.greater(f, 54.0) and tf.less_equal(f, 66.0):
             Yo = tf.math.exp((
                             ((54.0**(-N)) * tf.math.log(g54) * (f - 57.0) * (f - 60.0) * (f - 63.0) * (f - 66.0) / 1944.0) -
                             ((57.0**(-N)) * tf.math.log(g57) * (f - 54.0) * (f - 60.0) * (f - 63.0) * (f - 66.0) / 486.0) +
@@ -1696,13 +1696,13 @@ def compute_pathloss_gas(self):
                             ((66.0**(-N)) * tf.math.log(g66) * (f - 54.0) * (f - 57.0) * (f - 60.0) * (f - 63.0) / 1944.0) 
                             )* f**N)
         
-        elif tf.less(66.0,f) and tf.less_equal(f, 120.0):
+        elif tf.greater(f, 66.0) and tf.less_equal(f, 120.0):
             Yo = 3.02 * 10.0**(-4) * rt**(3.5) + ((0.283*rt**3.8)/((f-118.75)**2.0 +2.91 * rp**2.0 * rt**1.6)) + ((0.502 * ee6 * (1 - 0.0163 * ee7 * (f - 66.0)))/((f - 66.0) ** (1.4346 * ee4 + 1.15 * ee5)))
         # TODO In eager execution this code requires Yo to always be set. The best solution would be to throw an exception if illeagal frequencies are encoutered. However, this
         # currently breaks eager execution and thus uses this value instead. A future version will properly cath this case and throw an exceotion.For now this is not 
         # necessary, as the frequency range is not supported by the standard.
         else:
-            Yo = 0.0
+            Yo = tf.constant(0.0, self.rdtype)
 
         # Calculation of the equivalent height
         t1=(4.64/(1+(0.066*(rp**(-2.3)))))*tf.math.exp(-(((f-59.7)/(2.87+(12.4*tf.math.exp((-7.9)*rp))))**2.0))
-- 
2.43.0


From 42dd24c5c32bb8c77420bdbfbf925e69cd645326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:44 +0000
Subject: [PATCH 13/14] fix: show_topology draws users and stations on the same
 scale

---
 OpenNTN/system_level_channel.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/OpenNTN/system_level_channel.py b/OpenNTN/system_level_channel.py
index f4860cc..6cb6a8e 100644
--- a/OpenNTN/system_level_channel.py
+++ b/OpenNTN/system_level_channel.py
@@ -340,16 +340,20 @@ class SystemLevelChannel(ChannelModel):
 
         ut_loc = self._scenario.ut_loc.numpy()[batch_index]
         bs_loc = self._scenario.bs_loc.numpy()[batch_index]
-        ut_scaled_unit = "[m]"
-        bs_scaled_unit = "[m]"
-        ut_condition = tf.reduce_any(tf.greater(ut_loc, 10000.0))
-        bs_condition = tf.reduce_any(tf.greater(bs_loc, 10000.0))
-        if ut_condition:
-            ut_loc = ut_loc/1000.0
-            ut_scaled_unit = "[km]"
-        if bs_condition:
-            bs_loc = bs_loc/1000.0
-            bs_scaled_unit = "[km]"
+        # UTs and BSs share the axes and hence the units: one for the
+        # horizontal axes and one for the vertical axis
+        xy_unit = "[m]"
+        z_unit = "[m]"
+        locs = np.abs(np.concatenate([ut_loc, bs_loc]))
+        scale = np.ones([3], ut_loc.dtype)
+        if np.any(locs[:,:2] > 10000.0):
+            scale[:2] = 1000.0
+            xy_unit = "[km]"
+        if np.any(locs[:,2] > 10000.0):
+            scale[2] = 1000.0
+            z_unit = "[km]"
+        ut_loc = ut_loc/scale
+        bs_loc = bs_loc/scale
 
         ut_orientations = self._scenario.ut_orientations.numpy()[batch_index]
         bs_orientations = self._scenario.bs_orientations.numpy()[batch_index]
@@ -387,9 +391,9 @@ class SystemLevelChannel(ChannelModel):
             ax.text(loc[0], loc[1], loc[2], f'{u}')
             draw_coordinate_system(ax, loc, ut_orientations[u], delta)
 
-        x_label = str('x ' + ut_scaled_unit)
-        y_label = str('y ' + ut_scaled_unit)
-        z_label = str('z ' + bs_scaled_unit)
+        x_label = str('x ' + xy_unit)
+        y_label = str('y ' + xy_unit)
+        z_label = str('z ' + z_unit)
         ax.set_xlabel(x_label)
         ax.set_ylabel(y_label)
         ax.set_zlabel(z_label)
-- 
2.43.0


From 6ee0f008be5ebc9cb00b54a859b903c11e1bb9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:57 +0000
Subject: [PATCH 14/14] fix: indoor distance of users directly beneath a BS is
 zero, not NaN

---
 OpenNTN/system_level_scenario.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index b6f755e..b4c230a 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -883,8 +883,9 @@ class SystemLevelScenario(Object):
         # Compute the outdoor 2D distances
         self._distance_2d_out = self.distance_2d - self._distance_2d_in
         # Compute the indoor 3D distances
-        self._distance_3d_in = ((self._distance_2d_in/self.distance_2d)
-            *self.distance_3d)
+        # UTs directly beneath a BS have a 2D distance of zero
+        self._distance_3d_in = (tf.math.divide_no_nan(self._distance_2d_in,
+            self.distance_2d)*self.distance_3d)
         # Compute the outdoor 3D distances
         self._distance_3d_out = self.distance_3d - self._distance_3d_in
 
-- 
2.43.0

