From 0dbb0c656f8f628c7823e52707363742497db68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:10 +0000
Subject: [PATCH 01/18] fix: "VH" dual-polarized panel arrays were built with
 the +-45 degree slants of "cross"

---
 OpenNTN/antenna.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/antenna.py b/OpenNTN/antenna.py
index 39783ab..c505da4 100644
--- a/OpenNTN/antenna.py
+++ b/OpenNTN/antenna.py
@@ -524,7 +524,7 @@ class PanelArray(Object):
         else:
             assert polarization_type in ["VH", "cross"],\
             "For dual polarization, polarization_type must be 'VH' or 'cross'"
-            slant_angle = 0 if polarization == "VH" else -PI/4
+            slant_angle = 0 if polarization_type == "VH" else -PI/4
             self._ant_pol1 = AntennaElement(antenna_pattern, slant_angle,
                 self.precision)
             self._ant_pol2 = AntennaElement(antenna_pattern, slant_angle+PI/2,
-- 
2.43.0


From 45f91df16c800bb0d2a4ee9d30fb83f760fa70b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:56 +0000
Subject: [PATCH 02/18] fix: slant range used the first batch example's station
 height for every batch example

---
 OpenNTN/system_level_scenario.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index 7f65ec0..98e748b 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -807,17 +807,12 @@ class SystemLevelScenario(Object):
         #Radius of the Earth
         R_E = 6371000
  
-        #satellite height 
-        height_val = self._bs_loc[:,:,2][0]
+        #satellite heights, [batch size, num_bs, 1] to broadcast with the UTs
+        height_val = tf.expand_dims(self._bs_loc[:,:,2], axis=2)
         #Calculating the 3d distance based on 3GPP TR38.811 6.6-3 to consider the Earth's curveture
         distance_3d = (tf.sqrt(R_E**2 * tf.math.sin(elevation_angle)**2 + height_val**2 + 2*height_val*R_E) - R_E*tf.math.sin(elevation_angle))
-        #Expanding to correct shape
-        # TODO there is a sometimes occuring bug at this point. The squeeze assumes there to be more than one user, which can run into issues. However,
-        # this bug is not yet fully understood and seems to be limited to eager executions. For the future this needs to be fixed. This bug is also assumed
-        # to cause the infinite GPU memory allocation in eager execution during the use of the LMMSEEqualizer. 
-        # Additionally, tf.squeeze is used here, as distance_3d needs to be a tf.constant, but casting that directly lead to bugs. This workaround works well,
-        # but should be replaced by a more straightforward solution in the future.
-        distance_3d = tf.fill([self.batch_size, self.num_bs, self.num_ut], tf.squeeze(distance_3d))
+        #Expanding to correct shape, as the distance is the same for all UTs of a satellite
+        distance_3d = tf.broadcast_to(distance_3d, [self.batch_size, self.num_bs, self.num_ut])
         self._distance_3d = distance_3d
 
         # LoS AoA, AoD, ZoA, ZoD
-- 
2.43.0


From 204af9a0e1ab50c1cc25d055e45805bd11eea005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:02 +0000
Subject: [PATCH 03/18] fix: LoS zenith of arrival was mirrored, flipping the
 horizontal direction of the LoS arrival ray

---
 OpenNTN/system_level_scenario.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index 98e748b..4edfdd7 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -819,7 +819,7 @@ class SystemLevelScenario(Object):
         los_aod = tf.atan2(delta_loc[:,:,:,1], delta_loc[:,:,:,0])
         los_aoa = los_aod + PI
         los_zod = tf.atan2(distance_2d, delta_loc[:,:,:,2])
-        los_zoa = los_zod - PI
+        los_zoa = PI - los_zod
         # Angles are converted to degrees and wrapped to (0,360)
         self._los_aod = wrap_angle_0_360(rad_2_deg(los_aod))
         self._los_aoa = wrap_angle_0_360(rad_2_deg(los_aoa))
-- 
2.43.0


From 32a76a019c6fb075123ee6642eabe209199a06c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:37 +0000
Subject: [PATCH 04/18] fix: links of indoor terminals had no clusters, hence
 undefined (NaN) powers and coefficients

---
 OpenNTN/rays.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/OpenNTN/rays.py b/OpenNTN/rays.py
index 507b1ca..3c44882 100644
--- a/OpenNTN/rays.py
+++ b/OpenNTN/rays.py
@@ -200,9 +200,9 @@ class RaysGenerator(Object):
         scenario = self._scenario
         num_clusters_los = tf.cast(scenario.num_clusters_los, dtype=tf.int32)
         num_clusters_nlos = tf.cast(scenario.num_clusters_nlos, dtype=tf.int32)
-        #Currently their are no O2i cases. However, in future implementations including HAPS that may change. 
-        #Thus, we set the number of O2I clusters here to 0 and replace it with a meaningful implementation in the future
-        num_clusters_o2i = num_clusters_nlos - num_clusters_nlos
+        #Currently there are no dedicated O2I tables. As all other parameters of indoor UTs are those of NLoS links,
+        #so is their number of clusters (without any cluster, their powers and coefficients would not be defined)
+        num_clusters_o2i = num_clusters_nlos
         num_clusters_max = tf.cast(tf.reduce_max([num_clusters_los, num_clusters_nlos,
             num_clusters_o2i]), dtype=tf.int32)
         num_clusters_max = tf.cast(tf.reduce_max([num_clusters_los, num_clusters_nlos]), dtype=tf.int32)
-- 
2.43.0


From 2b00a76a9cdd35cb5de9c14d31337d31f619569b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:37 +0000
Subject: [PATCH 05/18] fix: ray offset angle of ray 16 was -0.1481 instead of
 -1.1481 (TR 38.901 table 7.5-3)

---
 OpenNTN/rays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/rays.py b/OpenNTN/rays.py
index 3c44882..ced69a7 100644
--- a/OpenNTN/rays.py
+++ b/OpenNTN/rays.py
@@ -107,7 +107,7 @@ class RaysGenerator(Object):
                                          0.5129, -0.5129,
                                          0.6797, -0.6797,
                                          0.8844, -0.8844,
-                                         1.1481, -0.1481,
+                                         1.1481, -1.1481,
                                          1.5195, -1.5195,
                                          2.1551, -2.1551],
                                          self.rdtype)
-- 
2.43.0


From 3e9965b9013a7777cb18b5ece2874fdf06aee6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:59 +0000
Subject: [PATCH 06/18] fix: station-side angular spread of all batch examples
 followed the height of the first example's station

---
 OpenNTN/rays.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/OpenNTN/rays.py b/OpenNTN/rays.py
index ced69a7..1768f29 100644
--- a/OpenNTN/rays.py
+++ b/OpenNTN/rays.py
@@ -389,6 +389,22 @@ class RaysGenerator(Object):
 
         return powers, powers_for_angles_gen
 
+    def _is_satellite(self):
+        """
+        Indicates the BSs that are high enough to be satellites
+
+        Input
+        ------
+        None
+
+        Output
+        -------
+        : [batch size, num of BSs, 1, 1], tf.bool
+            `True` if the BS is a satellite
+        """
+        is_satellite = self._scenario.bs_loc[:,:,2] >= 160000.
+        return is_satellite[:,:,tf.newaxis,tf.newaxis]
+
     def _azimuth_angles(self, azimuth_spread, rician_k_factor, cluster_powers,
                         angle_type):
         # pylint: disable=line-too-long
@@ -431,9 +447,9 @@ class RaysGenerator(Object):
             azimuth_angles_los = scenario.los_aod
             cluster_angle_spread = scenario.get_param('cASD')
             #Spread is 0 for satellite cases
-            if self._scenario.bs_loc[0,0,2] >= 160000:
-                azimuth_spread = tf.zeros_like(azimuth_spread)
-            
+            azimuth_spread = tf.where(self._is_satellite(),
+                tf.zeros_like(azimuth_spread), azimuth_spread)
+
         else:
             azimuth_angles_los = scenario.los_aoa
             cluster_angle_spread = scenario.get_param('cASA')
@@ -596,8 +612,8 @@ class RaysGenerator(Object):
             cluster_angle_spread = (3./8.)*tf.math.pow(tf.constant(10.,
                 self.rdtype),
                 scenario.lsp_log_mean[:,:,:,6])
-            if self._scenario.bs_loc[0,0,2] >= 160000:
-                zenith_spread = tf.zeros_like(zenith_spread)
+            zenith_spread = tf.where(self._is_satellite(),
+                tf.zeros_like(zenith_spread), zenith_spread)
         else:
             cluster_angle_spread = scenario.get_param('cZSA')
             zenith_angles_los = scenario.los_zoa
-- 
2.43.0


From 60cac9a3837078960fd53e18182ce80cb0c39bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:01 +0000
Subject: [PATCH 07/18] fix: Faraday rotation and satellite Doppler of all
 batch examples followed the first example's station heights, and several
 stations failed

---
 OpenNTN/channel_coefficients.py | 61 +++++++++++++++++++--------------
 OpenNTN/system_level_channel.py |  2 +-
 2 files changed, 36 insertions(+), 27 deletions(-)

diff --git a/OpenNTN/channel_coefficients.py b/OpenNTN/channel_coefficients.py
index c7813c2..dd696b2 100644
--- a/OpenNTN/channel_coefficients.py
+++ b/OpenNTN/channel_coefficients.py
@@ -99,9 +99,21 @@ class Topology(Object):
         sat_speed = compute_satellite_speed(bs_height)
         max_sat_speed_for_elevation_angle = tf.math.cos(elevation_angle * (PI/180.0)) * sat_speed
         batch_size = tf.shape(los_aoa)[0]
-        random_direction_per_batch = tf.random.uniform(minval=0, maxval=2*PI, shape = [batch_size])
+        # The direction of the orbit is random for each batch example
+        # [batch size, number of BSs]
+        random_direction_per_batch = tf.random.uniform(minval=0, maxval=2*PI, shape = [batch_size, 1])
         self.sat_speed = tf.math.cos(random_direction_per_batch) * max_sat_speed_for_elevation_angle
 
+    def expand_bs(self, x):
+        """
+        Adds dimensions to a tensor of per-BS quantities with shape
+        [number of BSs] or [batch size, number of BSs] to make it broadcastable
+        with [batch size, num TXs, num RXs, num clusters, num rays]
+        """
+        # The BSs are the receivers if the transmitters (UTs) are moving
+        ut_axis = -2 if self.moving_end == 'tx' else -1
+        return tf.expand_dims(x, ut_axis)[...,tf.newaxis,tf.newaxis]
+
 
 class ChannelCoefficientsGenerator(Object):
     # pylint: disable=line-too-long
@@ -606,25 +618,17 @@ class ChannelCoefficientsGenerator(Object):
         exponent = 2*PI/lambda_0*tf.reduce_sum(r_hat_ut*v_uts_bar, -2)*t
 
         # Check if a satellite is used (height of satellite is at least 600km). This is done to potentially incorporate HAPS later
-        if tf.logical_and(tf.less_equal(600000.0, topology.bs_height), topology.doppler_enabled):
+        if topology.doppler_enabled:
             # We get the maximum speed of the satellite based on its orbit and the users elevation angle. This value is multiplied with a random constant between [cos(0),cos(2pi))
-            # to simulate the random direction of the orbit in relation to the users. 
-            max_sat_speed_for_elevation_angle = topology.sat_speed
+            # to simulate the random direction of the orbit in relation to the users.
+            sat_speed = tf.where(tf.greater_equal(topology.bs_height, 600000.0),
+                topology.sat_speed, tf.zeros_like(topology.sat_speed))
             # The Doppler shift induced phase shift between each time step
-            max_rotation_per_time = (2.0*PI/lambda_0)*max_sat_speed_for_elevation_angle
+            rotation_per_time = (2.0*PI/lambda_0)*sat_speed
 
             # Multiply the time with the shift per time to create the shift on each time symbol for each batch
-            # [batch size, num time steps]
-            rotation_for_time = tf.matmul(tf.expand_dims(max_rotation_per_time,axis=1), tf.expand_dims(t,axis=0))
-
-            # As the time shift is the same within each batch, we expand the calculations per batch in the desired shape
-            # to get shape [batch size, num_tx, num rx, num clusters, num rays, num time steps]
-            rotation_for_time = tf.expand_dims(rotation_for_time, [1])
-            rotation_for_time = tf.expand_dims(rotation_for_time, [1])
-            rotation_for_time = tf.expand_dims(rotation_for_time, [1])
-            rotation_for_time = tf.expand_dims(rotation_for_time, [1])
-
-            rotation_for_time = tf.broadcast_to(rotation_for_time, tf.shape(exponent))
+            # [batch size, num_tx, num rx, num clusters, num rays, num time steps]
+            rotation_for_time = tf.expand_dims(topology.expand_bs(rotation_per_time), axis=-1)*t
             # Add the Doppler exponent to the standard exponent based on 3GPP TR38.811 section 6.8.1
             exponent = tf.math.add(exponent, rotation_for_time)
 
@@ -872,11 +876,9 @@ class ChannelCoefficientsGenerator(Object):
         h_phase = self._step_11_phase_matrix(phi, rays)
 
         # Add Faraday phase rotation in NTN case
-        if tf.greater_equal(topology.bs_height, 600000.0):            
-            rays_shape = tf.shape(rays.aoa)
-            faraday_phase_rotation = self._step_11_faraday_rotation(carrier_frequency=carrier_frequency, aod_shape=rays_shape)
-            h_phase = tf.matmul(h_phase,faraday_phase_rotation)
-            
+        h_phase = self._add_faraday_rotation(h_phase, topology, rays.aoa,
+                                                        carrier_frequency)
+
         h_field = self._step_11_field_matrix(topology, rays.aoa, rays.aod,
                                                     rays.zoa, rays.zod, h_phase)
         h_array = self._step_11_array_offsets(topology, rays.aoa, rays.aod,
@@ -1020,11 +1022,8 @@ class ChannelCoefficientsGenerator(Object):
                                          [1,1,1,1,1,2,2])
         
         # Add Faraday phase rotation in NTN case
-        if tf.greater_equal(topology.bs_height, 600000.0):
-
-            rays_shape = tf.shape(aoa)
-            faraday_phase_rotation = self._step_11_faraday_rotation(carrier_frequency=carrier_frequency, aod_shape=rays_shape)
-            h_phase = tf.matmul(h_phase,faraday_phase_rotation)
+        h_phase = self._add_faraday_rotation(h_phase, topology, aoa,
+                                                        carrier_frequency)
 
         h_field = self._step_11_field_matrix(topology, aoa, aod, zoa, zod,
                                                                     h_phase)
@@ -1105,6 +1104,16 @@ class ChannelCoefficientsGenerator(Object):
 
         return h, delays_nlos
     
+    def _add_faraday_rotation(self, h_phase, topology, aoa, carrier_frequency):
+        # Only links of satellites (height of at least 600km) cross the ionosphere
+        is_satellite = topology.expand_bs(
+            tf.greater_equal(topology.bs_height, 600000.0))
+        is_satellite = is_satellite[...,tf.newaxis,tf.newaxis]
+        faraday_phase_rotation = self._step_11_faraday_rotation(
+            carrier_frequency=carrier_frequency, aod_shape=tf.shape(aoa))
+        return tf.where(is_satellite,
+            tf.matmul(h_phase, faraday_phase_rotation), h_phase)
+
     def _step_11_faraday_rotation(self, carrier_frequency, aod_shape):
         carrier_frequency_in_GHz = carrier_frequency/(1e9)
         psi_in_deg = 108.0/(carrier_frequency_in_GHz*carrier_frequency_in_GHz)
diff --git a/OpenNTN/system_level_channel.py b/OpenNTN/system_level_channel.py
index 7e0cad6..91ca5fb 100644
--- a/OpenNTN/system_level_channel.py
+++ b/OpenNTN/system_level_channel.py
@@ -209,7 +209,7 @@ class SystemLevelChannel(ChannelModel):
                                 distance_3d=self._scenario.distance_3d,
                                 tx_orientations=tx_orientations,
                                 rx_orientations=rx_orientations,
-                                bs_height = self._scenario._bs_loc[:,:,2][0],
+                                bs_height = self._scenario._bs_loc[:,:,2],
                                 elevation_angle = self._scenario.elevation_angle,
                                 doppler_enabled = self._scenario.doppler_enabled
                                 )
-- 
2.43.0


From 0a3285dbb8333082e10f14c0146c43e42068ec68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:31 +0000
Subject: [PATCH 08/18] fix: tropospheric scintillation used a misbracketed
 path length through the turbulent layer (ITU-R P.618) and was NaN for large
 antennas

---
 OpenNTN/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index eaaf500..5a3ae01 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -1717,7 +1717,7 @@ def compute_pathloss_scintilation(self):
             #  Calculate the effective path length
             hL = 1000 # Height of turbulent layer in meters
             Elev = self._elevation_angle
-            L = (2 * hL) / (tf.math.sqrt(tf.math.sin(math.radians(Elev))**2 + 2.35e-4 + tf.math.sin(math.radians(Elev))))
+            L = (2 * hL) / (tf.math.sqrt(tf.math.sin(math.radians(Elev))**2 + 2.35e-4) + tf.math.sin(math.radians(Elev)))
                 
             # Step 5: Calculate the effective antenna diameter
             D = self._diameter_earth_antenna # antenna diameter in meters
@@ -1726,7 +1726,8 @@ def compute_pathloss_scintilation(self):
             # Step 6: Calculate the antenna averaging factor
 
             x = (1.22 * Deff**2 * f) / L
-            g = tf.math.sqrt(3.86 * (x**2 + 1)**(11/12) * tf.math.sin((11/6) * tf.math.atan(1/x)) - 7.08 * x**(5/6))
+            # For very large antennas the argument of the root is negative and the scintillation fade is zero (ITU-R P.618)
+            g = tf.math.sqrt(tf.maximum(3.86 * (x**2 + 1)**(11/12) * tf.math.sin((11/6) * tf.math.atan(1/x)) - 7.08 * x**(5/6), 0.0))
 
             # Step 7: Calculate the standard deviation of the signal for the period and propagation path
             g_x = (ref * f**(7/12) * g) / (math.sin(math.radians(Elev))**1.2)
-- 
2.43.0


From 81e8806600ce4bf43d6087377f840e6555c08be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:31 +0000
Subject: [PATCH 09/18] fix: basic path loss contained random shadow fading
 although shadow fading was disabled

---
 OpenNTN/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index 5a3ae01..1b5b0a0 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -1775,6 +1775,9 @@ def compute_pathloss_basic(self):
         sigmaSF_los = self._params_los["sigmaSF" + '_' + angle_str]
         sigmaSF_nlos = self._params_nlos["sigmaSF" + '_' + angle_str]
 
+        if not self.shadow_fading_enabled:
+            sigmaSF_los = sigmaSF_nlos = 0.0
+
         SF_los = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_los)
         SF_nlos = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_nlos)
 
-- 
2.43.0


From 1bc5b03674ad5d08d53bee74d9d7e16ebae9e0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:23 +0000
Subject: [PATCH 10/18] fix: environment parameters (temperature, pressure,
 ...) were reset to defaults by later topology updates and not applied when
 given alone

---
 OpenNTN/system_level_scenario.py | 49 ++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index 4edfdd7..632e203 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -122,6 +122,18 @@ class SystemLevelScenario(Object):
         self._in_state = None
         self._requested_los = None
 
+        # Environment parameters used by the path loss, set to standard values
+        # if not further specified
+        self._latitude = 47
+        self._lwc = 0.41
+        self._rain_rate = 40
+        self._atmospheric_pressure = 1020
+        self._temperature = 273
+        self._water_vapor_density = 7.5
+        self._relative_humidity = 50
+        self._diameter_earth_antenna = 3.6
+        self._antenna_efficiency = 0.5
+
         # Load parameters for this scenario
         self._load_params()
 
@@ -569,51 +581,44 @@ class SystemLevelScenario(Object):
         # state of UTs, or LoS/NLoS states of outdoor UTs are updated.
         need_for_update = False
 
-        #Setting values to standard values if not further specified
+        # The gas and scintillation losses depend on these environment parameters
+        need_for_pathloss_update = False
+
         if latitude is not None:
             self._latitude = latitude
-        else:
-            self._latitude = 47
+            need_for_pathloss_update = True
 
         if lwc is not None:
             self._lwc = lwc
-        else:
-            self._lwc = 0.41
+            need_for_pathloss_update = True
 
         if rain_rate is not None:
             self._rain_rate = rain_rate
-        else:
-            self._rain_rate = 40
+            need_for_pathloss_update = True
 
         if atmospheric_pressure is not None:
             self._atmospheric_pressure = atmospheric_pressure
-        else:
-            self._atmospheric_pressure = 1020
+            need_for_pathloss_update = True
 
         if temperature is not None:
             self._temperature = temperature
-        else:
-            self._temperature = 273
+            need_for_pathloss_update = True
 
         if water_vapor_density is not None:
             self._water_vapor_density = water_vapor_density
-        else:
-            self._water_vapor_density = 7.5
+            need_for_pathloss_update = True
 
         if relative_humidity is not None:
             self._relative_humidity = relative_humidity
-        else:
-            self._relative_humidity = 50
+            need_for_pathloss_update = True
 
         if diameter_earth_antenna is not None:
             self._diameter_earth_antenna = diameter_earth_antenna
-        else:
-            self._diameter_earth_antenna = 3.6
+            need_for_pathloss_update = True
 
         if antenna_efficiency is not None:
             self._antenna_efficiency = antenna_efficiency
-        else:
-            self._antenna_efficiency = 0.5
+            need_for_pathloss_update = True
 
         if ut_loc is not None:
             self._ut_loc = ut_loc
@@ -653,10 +658,10 @@ class SystemLevelScenario(Object):
             # Compute the basic path-loss
             self._compute_pathloss_basic()
             # Compute the basic path-loss
-            self._compute_pathloss_gas()
-            # Compute the basic path-loss
             self._compute_pathloss_entry()
-            # Compute the basic path-loss
+        if need_for_update or need_for_pathloss_update:
+            # Compute the gas and scintillation path-loss
+            self._compute_pathloss_gas()
             self._compute_pathloss_scintillation()
             #The 3GPP model only considers the losses given above. However, there also are
             #models for additional losses due to clouds and rain, which are considered in this function
-- 
2.43.0


From 8b13b53221c6c8b8302187850e8b1a912449bc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:37 +0000
Subject: [PATCH 11/18] fix: generated terminals with negative x (or at the
 origin) were oriented away from the satellite (or NaN)

---
 OpenNTN/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index 1b5b0a0..6ee1454 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -982,7 +982,7 @@ def generate_uts_topology(  batch_size,
     ut_downtilt = tf.zeros([batch_size, num_ut]) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 180.0, rdtype)),rdtype)
     ut_slant = tf.zeros([batch_size, num_ut]) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 90.0, rdtype)),rdtype)
     #Always point at the BS, which is at [0,0,bs_height]
-    ut_bearing = tf.math.atan(ut_loc_xy[:,:,1]/ut_loc_xy[:,:,0])
+    ut_bearing = tf.math.atan2(ut_loc_xy[:,:,1], ut_loc_xy[:,:,0])
     ut_orientations = tf.stack([ut_bearing, ut_downtilt, ut_slant], axis=-1)
 
     return ut_loc, ut_orientations, ut_velocities, in_state
-- 
2.43.0


From 09344830e64624dcd45f19387c0ffb3b66b51d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:42 +0000
Subject: [PATCH 12/18] fix: satellite Doppler exceeded the line-of-sight
 component of the orbital speed (factor R/(R+h) of TR 38.811 missing)

---
 OpenNTN/channel_coefficients.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/OpenNTN/channel_coefficients.py b/OpenNTN/channel_coefficients.py
index dd696b2..4eed977 100644
--- a/OpenNTN/channel_coefficients.py
+++ b/OpenNTN/channel_coefficients.py
@@ -97,7 +97,9 @@ class Topology(Object):
         # self.sat_speed = None
         # if tf.reduce_any(tf.greater_equal(bs_height, 600000.0)):
         sat_speed = compute_satellite_speed(bs_height)
-        max_sat_speed_for_elevation_angle = tf.math.cos(elevation_angle * (PI/180.0)) * sat_speed
+        # Component of the orbital speed along the line of sight (TR 38.811, section 6.8.1)
+        r_earth = 6371000.0
+        max_sat_speed_for_elevation_angle = tf.math.cos(elevation_angle * (PI/180.0)) * sat_speed * r_earth/(r_earth + bs_height)
         batch_size = tf.shape(los_aoa)[0]
         # The direction of the orbit is random for each batch example
         # [batch size, number of BSs]
-- 
2.43.0


From d08e1d5e38925a92a0e6d5ef82a6f29769568d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:54 +0000
Subject: [PATCH 13/18] fix: TDL transmit correlation matrix was conjugated and
 factor-reversed, not equivalent to R_rx kron R_tx

---
 OpenNTN/tdl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/OpenNTN/tdl.py b/OpenNTN/tdl.py
index f2e5cc9..0a06f09 100644
--- a/OpenNTN/tdl.py
+++ b/OpenNTN/tdl.py
@@ -531,7 +531,8 @@ class TDL(ChannelModel):
                 if self._rx_corr_mat_sqrt is not None:
                     h = tf.matmul(self._rx_corr_mat_sqrt, h)
                 if self._tx_corr_mat_sqrt is not None:
-                    h = tf.matmul(h, self._tx_corr_mat_sqrt)
+                    h = tf.matmul(h, self._tx_corr_mat_sqrt,
+                                    transpose_b=True)
                 h = tf.transpose(h, [0,1,5,2,6,3,4])
 
         # Stop gadients to avoid useless backpropagation
-- 
2.43.0


From 8293f56e4be67b547b05c9e9e28a1c9a77f91e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:54 +0000
Subject: [PATCH 14/18] fix: TDL accepted model E, which has no NTN profile,
 and then failed with UnboundLocalError

---
 OpenNTN/tdl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/OpenNTN/tdl.py b/OpenNTN/tdl.py
index 0a06f09..814aee5 100644
--- a/OpenNTN/tdl.py
+++ b/OpenNTN/tdl.py
@@ -153,7 +153,7 @@ class TDL(ChannelModel):
     -----------
 
     model : str
-        TDL model to use. Must be one of "A", "B", "C", "D", "E", "A30", "B100", or "C300".
+        TDL model to use. Must be one of "A", "B", "C", "D", "A30", "B100", or "C300".
 
     delay_spread : float
         RMS delay spread [s].
@@ -259,7 +259,7 @@ class TDL(ChannelModel):
         #self._real_dtype = real_dtype
 
         # Set the file from which to load the model
-        assert model in ('A', 'B', 'C', 'D', 'E', 'A30', 'B100', 'C300'),\
+        assert model in ('A', 'B', 'C', 'D', 'A30', 'B100', 'C300'),\
             "Invalid TDL model"
         if model == 'A':
             parameters_fname = "TDL-A.json"
-- 
2.43.0


From 377344f4ae275de0394493c7212719e701900696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:32 +0000
Subject: [PATCH 15/18] fix: TDL with double precision failed (satellite speed
 was computed in single precision)

---
 OpenNTN/tdl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/OpenNTN/tdl.py b/OpenNTN/tdl.py
index 814aee5..64ea07c 100644
--- a/OpenNTN/tdl.py
+++ b/OpenNTN/tdl.py
@@ -581,6 +581,7 @@ class TDL(ChannelModel):
         #Equation (8.41) from Curtis, H. D. (2005). Orbital Mechanics for Engineering Students. Butterworth-Heinemann. ISBN: 0 7506 6169 0.
         v_sat = tf.math.sqrt((G*M)/((r_earth*1000)+(h_sat*1000)))/1000#speed of the satellite in given Orbit around Earth in km/s
 
+        v_sat = tf.cast(v_sat, self.rdtype)
         additional_doppler_shift_811 = v_sat/v_light * ((r_earth/(r_earth+h_sat)) * np.cos(np.deg2rad(elavation_angle))) * self._carrier_frequency
         return 2.*PI*speed/SPEED_OF_LIGHT*self._carrier_frequency + additional_doppler_shift_811
 
-- 
2.43.0


From 7198692720465f33d2e2ae693db4c26c861ad6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:44 +0000
Subject: [PATCH 16/18] fix: channels, arrays, scenarios and topology
 generation with precision="double" failed with mixed-precision type errors

---
 OpenNTN/antenna.py               |  4 +-
 OpenNTN/channel_coefficients.py  | 12 ++---
 OpenNTN/dense_urban_scenario.py  |  2 +-
 OpenNTN/sub_urban_scenario.py    |  2 +-
 OpenNTN/system_level_scenario.py |  2 +-
 OpenNTN/urban_scenario.py        |  2 +-
 OpenNTN/utils.py                 | 77 ++++++++++++++++----------------
 7 files changed, 51 insertions(+), 50 deletions(-)

diff --git a/OpenNTN/antenna.py b/OpenNTN/antenna.py
index c505da4..aab8557 100644
--- a/OpenNTN/antenna.py
+++ b/OpenNTN/antenna.py
@@ -187,8 +187,8 @@ class AntennaElement(Object):
 
         ka = a * 2 * math.pi
         r = tf.acos(tf.sin(theta) * tf.cos(phi))
-        amplitude = tf.where(0.0 == r, tf.cast(1.0, tf.float32), 4 * tf.abs(tf.math.special.bessel_j1(tf.sin(r)*ka) / (ka * tf.sin(r))) ** 2)
-        return tf.where(tf.abs(r) > 0.5*math.pi, tf.cast(0.0, tf.float32), amplitude)
+        amplitude = tf.where(0.0 == r, tf.cast(1.0, r.dtype), 4 * tf.abs(tf.math.special.bessel_j1(tf.sin(r)*ka) / (ka * tf.sin(r))) ** 2)
+        return tf.where(tf.abs(r) > 0.5*math.pi, tf.cast(0.0, r.dtype), amplitude)
 
     def _radiation_pattern_co_phased_DLp(self, theta, phi):
         """
diff --git a/OpenNTN/channel_coefficients.py b/OpenNTN/channel_coefficients.py
index 4eed977..14937a0 100644
--- a/OpenNTN/channel_coefficients.py
+++ b/OpenNTN/channel_coefficients.py
@@ -99,11 +99,11 @@ class Topology(Object):
         sat_speed = compute_satellite_speed(bs_height)
         # Component of the orbital speed along the line of sight (TR 38.811, section 6.8.1)
         r_earth = 6371000.0
-        max_sat_speed_for_elevation_angle = tf.math.cos(elevation_angle * (PI/180.0)) * sat_speed * r_earth/(r_earth + bs_height)
+        max_sat_speed_for_elevation_angle = tf.math.cos(tf.cast(elevation_angle * (PI/180.0), los_aoa.dtype)) * sat_speed * r_earth/(r_earth + bs_height)
         batch_size = tf.shape(los_aoa)[0]
         # The direction of the orbit is random for each batch example
         # [batch size, number of BSs]
-        random_direction_per_batch = tf.random.uniform(minval=0, maxval=2*PI, shape = [batch_size, 1])
+        random_direction_per_batch = tf.random.uniform(minval=0, maxval=2*PI, shape = [batch_size, 1], dtype=los_aoa.dtype)
         self.sat_speed = tf.math.cos(random_direction_per_batch) * max_sat_speed_for_elevation_angle
 
     def expand_bs(self, x):
@@ -1121,10 +1121,10 @@ class ChannelCoefficientsGenerator(Object):
         psi_in_deg = 108.0/(carrier_frequency_in_GHz*carrier_frequency_in_GHz)
         # TODO there is a bug report here,  appearently passing a Tensor to a NumPy call, which is not supported. Assumably psi in the functions is the issue,
         # but the bug could not yet be replicated. This comment serves as a reminder in case of future resurgence of the issue
-        psi_in_rad = psi_in_deg * (PI/180.0)
-        faraday_cos = tf.fill(dims=aod_shape, value=tf.complex(tf.math.cos(psi_in_rad), 0.0))
-        faraday_sin = tf.fill(dims=aod_shape, value=tf.complex(tf.math.sin(psi_in_rad), 0.0))
-        faraday_minus_sin = tf.fill(dims=aod_shape, value=tf.complex(-tf.math.sin(psi_in_rad), 0.0))
+        psi_in_rad = tf.cast(psi_in_deg * (PI/180.0), self.rdtype)
+        faraday_cos = tf.fill(dims=aod_shape, value=tf.cast(tf.math.cos(psi_in_rad), self.cdtype))
+        faraday_sin = tf.fill(dims=aod_shape, value=tf.cast(tf.math.sin(psi_in_rad), self.cdtype))
+        faraday_minus_sin = tf.fill(dims=aod_shape, value=tf.cast(-tf.math.sin(psi_in_rad), self.cdtype))
         shape = tf.concat([tf.shape(faraday_cos), [2,2]], axis=-1)
         faraday_phase_rot = tf.reshape(tf.stack([faraday_cos, faraday_minus_sin, faraday_sin, faraday_cos], axis=-1), shape)
         return faraday_phase_rot
diff --git a/OpenNTN/dense_urban_scenario.py b/OpenNTN/dense_urban_scenario.py
index acf1214..6bb7421 100644
--- a/OpenNTN/dense_urban_scenario.py
+++ b/OpenNTN/dense_urban_scenario.py
@@ -130,7 +130,7 @@ class DenseUrbanScenario(SystemLevelScenario):
         angle_str = str(round(self._elevation_angle/10.0)*10)
         los_p = self._params_los["LoS_p" + '_' + angle_str]
         #self._distance_2d_out already has desired shape, this it is used here to keep the code shorter
-        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out)) + los_p
+        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out), dtype=self.rdtype) + los_p
 
         return los_probability
 
diff --git a/OpenNTN/sub_urban_scenario.py b/OpenNTN/sub_urban_scenario.py
index b476708..74996a3 100644
--- a/OpenNTN/sub_urban_scenario.py
+++ b/OpenNTN/sub_urban_scenario.py
@@ -132,7 +132,7 @@ class SubUrbanScenario(SystemLevelScenario):
         los_p = self._params_los["LoS_p" + '_' + angle_str]
         #self._distance_2d_out already has desired shape, this it is used here to keep the code shorter
         #los_probability = tf.zeros(shape=self._distance_2d_out.shape) + los_p
-        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out)) + los_p
+        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out), dtype=self.rdtype) + los_p
         return los_probability
 
     @property
diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index 632e203..2f49a11 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -808,7 +808,7 @@ class SystemLevelScenario(Object):
         # The 3D distance needs to take the curvature of Earth into account
         elevation_angle = self._elevation_angle
         #convert to radians for tf.math.sin later
-        elevation_angle = math.radians(elevation_angle)
+        elevation_angle = tf.cast(math.radians(elevation_angle), self.rdtype)
         #Radius of the Earth
         R_E = 6371000
  
diff --git a/OpenNTN/urban_scenario.py b/OpenNTN/urban_scenario.py
index c8e9cdc..7b24911 100644
--- a/OpenNTN/urban_scenario.py
+++ b/OpenNTN/urban_scenario.py
@@ -131,7 +131,7 @@ class UrbanScenario(SystemLevelScenario):
         los_p = self._params_los["LoS_p" + '_' + angle_str]
         #self._distance_2d_out already has desired shape, this it is used here to keep the code shorter
         #los_probability = tf.zeros(shape=self._distance_2d_out.shape) + los_p
-        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out)) + los_p
+        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out), dtype=self.rdtype) + los_p
         
         return los_probability
 
diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index 6ee1454..1e73a5b 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -582,9 +582,10 @@ def drop_uts_in_sector(batch_size, num_ut, bs_height, elevation_angle, isd,
     # the center with some random variation based on the isd
 
     
-    actual_bs_ut_distance = tf.cast(bs_height, rdtype) / tf.cast(tf.math.sin(deg_2_rad(tf.cast(elevation_angle,rdtype))),rdtype)
+    bs_height = tf.cast(bs_height, rdtype)
+    actual_bs_ut_distance = bs_height / tf.cast(tf.math.sin(deg_2_rad(tf.cast(elevation_angle,rdtype))),rdtype)
     distance_center_to_ut = tf.math.sqrt(tf.math.square(actual_bs_ut_distance) - tf.math.square(bs_height))
-    x_base = tf.random.uniform(shape = [1], minval=0,maxval=distance_center_to_ut)
+    x_base = tf.random.uniform(shape = [1], minval=0,maxval=distance_center_to_ut, dtype=rdtype)
     y_base = tf.math.sqrt(tf.math.square(actual_bs_ut_distance) - tf.math.square(bs_height) - tf.math.square(x_base))
 
     # Randomly assign the UTs to one of the two half of the sector
@@ -979,8 +980,8 @@ def generate_uts_topology(  batch_size,
                                 axis=-1)
 
     
-    ut_downtilt = tf.zeros([batch_size, num_ut]) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 180.0, rdtype)),rdtype)
-    ut_slant = tf.zeros([batch_size, num_ut]) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 90.0, rdtype)),rdtype)
+    ut_downtilt = tf.zeros([batch_size, num_ut], rdtype) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 180.0, rdtype)),rdtype)
+    ut_slant = tf.zeros([batch_size, num_ut], rdtype) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 90.0, rdtype)),rdtype)
     #Always point at the BS, which is at [0,0,bs_height]
     ut_bearing = tf.math.atan2(ut_loc_xy[:,:,1], ut_loc_xy[:,:,0])
     ut_orientations = tf.stack([ut_bearing, ut_downtilt, ut_slant], axis=-1)
@@ -1161,7 +1162,7 @@ def gen_single_sector_topology( batch_size,
     # Setting BS to (0,0,bs_height)
     bs_loc = tf.stack([ tf.zeros([batch_size, 1], rdtype),
                         tf.zeros([batch_size, 1], rdtype),
-                        tf.fill( [batch_size, 1], bs_height)], axis=-1)
+                        tf.fill( [batch_size, 1], tf.cast(bs_height, rdtype))], axis=-1)
 
     # BS always faces exactly down in simulations
     bs_yaw = tf.constant(0.0, rdtype)
@@ -1612,32 +1613,32 @@ def compute_pathloss_gas(self):
         rp=p/1013
         n1=0.955*rp*(rt**0.68)+(0.006*pw)
         n2=0.735*rp*(rt**0.5)+(0.0353*(rt**4)*pw)
-        Yw = (((3.98*n1*tf.math.exp(2.23*(1-rt))) / (((f-22.235)**2) + 9.42*(n1**2))) * (1+((f-22) / (f+22))**2) + \
-            ((11.96*n1*tf.math.exp(0.7*(1-rt))) / (((f-183.31)**2) + 11.14*(n1**2))) + \
-            ((0.081*n1*tf.math.exp(6.44*(1-rt))) / (((f-321.226)**2) + (6.29*(n1**2)))) + \
-            ((3.66*n1*tf.math.exp(1.6*(1-rt))) / (((f-325.153)**2) + 9.22*(n1**2))) + \
-            ((25.37*n1*tf.math.exp(1.09*(1-rt))) / ((f-380)**2)) + \
-            ((17.4*n1*tf.math.exp(1.46*(1-rt))) / ((f-448)**2)) + \
-            ((844.6*n1*tf.math.exp(0.17*(1-rt))) / ((f-557)**2)) * (1+((f-557)/(f+557))**2) + \
-            ((290*n1*tf.math.exp(0.41*(1-rt))) / ((f-752)**2)) * (1+((f-752)/(f+752))**2) + \
-            ((83328*n2*tf.math.exp(0.99*(1-rt))) / ((f-1780)**2)) * (1+((f-1780)/(f+1780))**2)) * \
+        Yw = (((3.98*n1*math.exp(2.23*(1-rt))) / (((f-22.235)**2) + 9.42*(n1**2))) * (1+((f-22) / (f+22))**2) + \
+            ((11.96*n1*math.exp(0.7*(1-rt))) / (((f-183.31)**2) + 11.14*(n1**2))) + \
+            ((0.081*n1*math.exp(6.44*(1-rt))) / (((f-321.226)**2) + (6.29*(n1**2)))) + \
+            ((3.66*n1*math.exp(1.6*(1-rt))) / (((f-325.153)**2) + 9.22*(n1**2))) + \
+            ((25.37*n1*math.exp(1.09*(1-rt))) / ((f-380)**2)) + \
+            ((17.4*n1*math.exp(1.46*(1-rt))) / ((f-448)**2)) + \
+            ((844.6*n1*math.exp(0.17*(1-rt))) / ((f-557)**2)) * (1+((f-557)/(f+557))**2) + \
+            ((290*n1*math.exp(0.41*(1-rt))) / ((f-752)**2)) * (1+((f-752)/(f+752))**2) + \
+            ((83328*n2*math.exp(0.99*(1-rt))) / ((f-1780)**2)) * (1+((f-1780)/(f+1780))**2)) * \
             ((f**2) * (rt**2.5) * (pw*10**(1-5)))
 
         # calculation of the path length for water vapor contents(hw) (km) 
-        conw=1.013/(1+tf.math.exp((0-8.1)*(rp-0.57)))
+        conw=1.013/(1+math.exp((0-8.1)*(rp-0.57)))
         hw=1.66*(1+((1.39*conw)/(((f-22.235)**2)+(2.56*conw)))+((3.37*conw)/(((f-183.31)**2)+(4.69*conw)))+((1.5*conw)/(((f-325.1)**2)+(2.89*conw))))
 
         #water vapor attenuation in zenith angle path (dB)
         Aw=Yw*hw 
 
         ###constants
-        ee1=(rp**0.0717)*(rt**(-1.8132))*tf.math.exp((0.0156*(1-rp))+(-1.6515*(1-rt)))
-        ee2=(rp**0.5146)*(rt**(-4.6368))*tf.math.exp(((-0.1921)*(1-rp))+(-5.7416*(1-rt)))
-        ee3=(rp**0.3414)*(rt**(0-6.5851))*tf.math.exp(((0.2130)*(1-rp))+(-8.5854*(1-rt)))
-        ee4=(rp**(-0.0112))*(rt**(0.0092))*tf.math.exp((-0.1033*(1-rp))+(-0.0009*(1-rt)))
-        ee5=(rp**0.2705)*(rt**(-2.7192))*tf.math.exp((-0.3016*(1-rp))+(-4.1033*(1-rt)))
-        ee6=(rp**0.2445)*(rt**(-5.9191))*tf.math.exp((0.0422*(1-rp))+(-8.0719*(1-rt)))
-        ee7=(rp**(-0.1833))*(rt**(6.5589))*tf.math.exp((-0.2402*(1-rp))+(6.131*(1-rt)))
+        ee1=(rp**0.0717)*(rt**(-1.8132))*math.exp((0.0156*(1-rp))+(-1.6515*(1-rt)))
+        ee2=(rp**0.5146)*(rt**(-4.6368))*math.exp(((-0.1921)*(1-rp))+(-5.7416*(1-rt)))
+        ee3=(rp**0.3414)*(rt**(0-6.5851))*math.exp(((0.2130)*(1-rp))+(-8.5854*(1-rt)))
+        ee4=(rp**(-0.0112))*(rt**(0.0092))*math.exp((-0.1033*(1-rp))+(-0.0009*(1-rt)))
+        ee5=(rp**0.2705)*(rt**(-2.7192))*math.exp((-0.3016*(1-rp))+(-4.1033*(1-rt)))
+        ee6=(rp**0.2445)*(rt**(-5.9191))*math.exp((0.0422*(1-rp))+(-8.0719*(1-rt)))
+        ee7=(rp**(-0.1833))*(rt**(6.5589))*math.exp((-0.2402*(1-rp))+(6.131*(1-rt)))
 
         g54 = 2.136 * rp**1.4975 * rt**(-1.5852) * math.exp((-2.5196)*(1-rt))
         g57 = 9.984 * rp**0.9313 * rt**(2.6732) * math.exp((0.8563)*(1-rt))
@@ -1658,11 +1659,11 @@ def compute_pathloss_gas(self):
 
         elif tf.less(54.0,f) and tf.less_equal(f, 66.0):
             Yo = tf.math.exp((
-                            ((54.0**(-N)) * tf.math.log(g54) * (f - 57.0) * (f - 60.0) * (f - 63.0) * (f - 66.0) / 1944.0) -
-                            ((57.0**(-N)) * tf.math.log(g57) * (f - 54.0) * (f - 60.0) * (f - 63.0) * (f - 66.0) / 486.0) +
-                            ((60.0**(-N)) * tf.math.log(g60) * (f - 54.0) * (f - 57.0) * (f - 63.0) * (f - 66.0) / 324.0) -
-                            ((63.0**(-N)) * tf.math.log(g63) * (f - 54.0) * (f - 57.0) * (f - 60.0) * (f - 66.0) / 486.0) +
-                            ((66.0**(-N)) * tf.math.log(g66) * (f - 54.0) * (f - 57.0) * (f - 60.0) * (f - 63.0) / 1944.0) 
+                            ((54.0**(-N)) * math.log(g54) * (f - 57.0) * (f - 60.0) * (f - 63.0) * (f - 66.0) / 1944.0) -
+                            ((57.0**(-N)) * math.log(g57) * (f - 54.0) * (f - 60.0) * (f - 63.0) * (f - 66.0) / 486.0) +
+                            ((60.0**(-N)) * math.log(g60) * (f - 54.0) * (f - 57.0) * (f - 63.0) * (f - 66.0) / 324.0) -
+                            ((63.0**(-N)) * math.log(g63) * (f - 54.0) * (f - 57.0) * (f - 60.0) * (f - 66.0) / 486.0) +
+                            ((66.0**(-N)) * math.log(g66) * (f - 54.0) * (f - 57.0) * (f - 60.0) * (f - 63.0) / 1944.0) 
                             )* f**N)
         
         elif tf.less(66.0,f) and tf.less_equal(f, 120.0):
@@ -1674,8 +1675,8 @@ def compute_pathloss_gas(self):
             Yo = 0.0
 
         # Calculation of the equivalent height
-        t1=(4.64/(1+(0.066*(rp**(-2.3)))))*tf.math.exp(-(((f-59.7)/(2.87+(12.4*tf.math.exp((-7.9)*rp))))**2.0))
-        t2=(0.14*tf.math.exp(2.12*rp))/(((f-118.75)**2)+0.031*tf.math.exp(2.2*rp))
+        t1=(4.64/(1+(0.066*(rp**(-2.3)))))*tf.math.exp(-(((f-59.7)/(2.87+(12.4*math.exp((-7.9)*rp))))**2.0))
+        t2=(0.14*math.exp(2.12*rp))/(((f-118.75)**2)+0.031*math.exp(2.2*rp))
         t3=(0.0114/(1+(0.14*(rp**(-2.6)))))*f*((-0.0247+(0.0001*f)+(1.61*(10.0**(-6.0))*f**2.0))/(1.0-(0.0169*f)+(4.1*(10.0**(-5.0))*f**2)+ (3.2*(10.0**(-7.0))*f**3.0)))
         ho=(6.1/(1.0+(0.17*(rp**(-1.1)))))*(1.0+t1+t2+t3)
 
@@ -1684,10 +1685,10 @@ def compute_pathloss_gas(self):
             
         # Calculate the total gases attenuation for the given elevation
         Elev = self._elevation_angle
-        Atotx = (Ao + Aw) / tf.math.sin(math.radians(Elev))
+        Atotx = (Ao + Aw) / math.sin(math.radians(Elev))
         GasAtt = abs(Atotx)
 
-        pl_g = tf.zeros(shape = tf.shape(self.los)) + GasAtt
+        pl_g = tf.zeros(shape = tf.shape(self.los), dtype = self.rdtype) + GasAtt
 
         self._pl_g = pl_g
             
@@ -1717,7 +1718,7 @@ def compute_pathloss_scintilation(self):
             #  Calculate the effective path length
             hL = 1000 # Height of turbulent layer in meters
             Elev = self._elevation_angle
-            L = (2 * hL) / (tf.math.sqrt(tf.math.sin(math.radians(Elev))**2 + 2.35e-4) + tf.math.sin(math.radians(Elev)))
+            L = (2 * hL) / (math.sqrt(math.sin(math.radians(Elev))**2 + 2.35e-4) + math.sin(math.radians(Elev)))
                 
             # Step 5: Calculate the effective antenna diameter
             D = self._diameter_earth_antenna # antenna diameter in meters
@@ -1739,7 +1740,7 @@ def compute_pathloss_scintilation(self):
             TroScin = a_p * g_x
 
             TScin=abs(TroScin)
-            pl_s = tf.zeros(shape = tf.shape(self.los)) + TScin
+            pl_s = tf.zeros(shape = tf.shape(self.los), dtype = self.rdtype) + TScin
             self._pl_s = pl_s
             
         #For carrier frequencies below 6GHz we only consider Ionospheric scintillation    
@@ -1752,14 +1753,14 @@ def compute_pathloss_scintilation(self):
             #Scale scintillation pathloss at 4GHz to used carrier frequency by applying 3GPP TR38.811 6.6-12
             AIs = Pluc_4GHz * (f/4)**(n)
             #Get final loss by dividing by sqrt(2) according to 3GPP TR38.811 6.6-13
-            pl_s = tf.zeros(shape = tf.shape(self.los)) + (AIs/math.sqrt(2.0))
+            pl_s = tf.zeros(shape = tf.shape(self.los), dtype = self.rdtype) + (AIs/math.sqrt(2.0))
             self._pl_s = pl_s
         
 
 
 def compute_pathloss_entry(self):
         #Currently only 0, as no HAPS are considered an thus no building cases
-        pl_e = tf.zeros(shape = tf.shape(self.los))
+        pl_e = tf.zeros(shape = tf.shape(self.los), dtype = self.rdtype)
         self._pl_e = pl_e
         #ntnu.compute_pathloss_gas(self)
 
@@ -1778,8 +1779,8 @@ def compute_pathloss_basic(self):
         if not self.shadow_fading_enabled:
             sigmaSF_los = sigmaSF_nlos = 0.0
 
-        SF_los = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_los)
-        SF_nlos = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_nlos)
+        SF_los = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_los, dtype = self.rdtype)
+        SF_nlos = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_nlos, dtype = self.rdtype)
 
         pl_los = fspl + SF_los
         pl_nlos = fspl + SF_nlos + cl
@@ -1951,7 +1952,7 @@ def compute_pathloss_additional(self):
 
         total_att = Ratt + CAtten
 
-        pl_a = tf.zeros(shape = tf.shape(self.los)) + total_att
+        pl_a = tf.zeros(shape = tf.shape(self.los), dtype = self.rdtype) + total_att
 
         self._pl_a = pl_a
 
-- 
2.43.0


From 03481f5a284be37366ec323a192864b282a58811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:40 +0000
Subject: [PATCH 17/18] fix: indoor path parts longer than the path and NaN 3D
 parts of terminals below the station

---
 OpenNTN/system_level_scenario.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index 2f49a11..4c8c2b1 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -875,10 +875,15 @@ class SystemLevelScenario(Object):
         self._distance_2d_in = tf.random.uniform(shape=[self.batch_size,
             self.num_bs, self.num_ut], minval=self.min_2d_in,
             maxval=self.max_2d_in, dtype=self.rdtype)*indoor_mask
+        # The indoor part of a path cannot be longer than the path itself
+        self._distance_2d_in = tf.minimum(self._distance_2d_in,
+                                          self.distance_2d)
         # Compute the outdoor 2D distances
         self._distance_2d_out = self.distance_2d - self._distance_2d_in
         # Compute the indoor 3D distances
-        self._distance_3d_in = ((self._distance_2d_in/self.distance_2d)
+        # UTs right below the BS have a null 2D distance
+        self._distance_3d_in = (tf.math.divide_no_nan(self._distance_2d_in,
+                                                      self.distance_2d)
             *self.distance_3d)
         # Compute the outdoor 3D distances
         self._distance_3d_out = self.distance_3d - self._distance_3d_in
-- 
2.43.0


From b3cbe93ff41fdc0702387d4395afe7d07267e1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:24 +0000
Subject: [PATCH 18/18] fix: LSPs of terminals at the same 2D position were NaN
 (singular spatial correlation matrix)

---
 OpenNTN/lsp.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/OpenNTN/lsp.py b/OpenNTN/lsp.py
index f98f449..2c691bb 100644
--- a/OpenNTN/lsp.py
+++ b/OpenNTN/lsp.py
@@ -395,9 +395,20 @@ class LSPGenerator(Object):
         # Compute and store the square root of the spatial correlation matrix
 
         #If we are in DL, the ASD and ZSD are -inf and there is no correlation   
-        self._spatial_lsp_correlation_matrix_sqrt = tf.linalg.cholesky(
+        spatial_lsp_correlation_sqrt = tf.linalg.cholesky(
                 spatial_lsp_correlation)
 
+        # UTs at the same 2D position (e.g., on different floors) are fully
+        # correlated, which makes the matrix singular and its decomposition
+        # fail numerically. A small diagonal loading is used for these matrices.
+        loading = 1e-5*tf.eye(self._scenario.num_ut, dtype=self.rdtype)
+        decomposed = tf.reduce_all(
+            tf.math.is_finite(spatial_lsp_correlation_sqrt), axis=[-2,-1],
+            keepdims=True)
+        self._spatial_lsp_correlation_matrix_sqrt = tf.where(decomposed,
+            spatial_lsp_correlation_sqrt,
+            tf.linalg.cholesky(spatial_lsp_correlation + loading))
+
 
     """
     This function is currently not in use, as 3GPP TR38.811 does not allow for the 
-- 
2.43.0

