From 0cced20e713d193fd98776c9fd6a0f59707501b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:05 +0000
Subject: [PATCH 01/82] fix: initial orientation of free and pinned rods

The orientation quaternion was computed as the rotation from the rod axis to
the absolute position of its end B, so lines attached to end B of free or
pinned rods were initialized from a wrong place.
---
 source/Rod.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/Rod.cpp b/source/Rod.cpp
index d111f62..d3c0344 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -150,13 +150,13 @@ Rod::setup(int number_in,
 	if (type == FREE) {
 		// For an independent rod, set the position right off the bat
 		r7.pos = endCoords.head<3>();
-		r7.quat = quaternion::FromTwoVectors(q0, endCoords.tail<3>());
+		r7.quat = quaternion::Identity(); // q0 is the initial orientation
 		v6 = vec6::Zero();
 	} else if ((type == PINNED) || (type == CPLDPIN)) {
 		// for a pinned rod, just set the orientation (position will be set
 		// later by parent object) 
 		r7.pos = vec3::Zero(); 
-		r7.quat = quaternion::FromTwoVectors(q0, endCoords.tail<3>()); // TODO: Check this is right
+		r7.quat = quaternion::Identity(); // q0 is the initial orientation
 		v6(Eigen::seqN(3, 3)) = vec::Zero();
 	}
 	// otherwise (for a fixed rod) the positions will be set by the parent body
-- 
2.43.0


From cb1d2a626b9c213f00aedd6f0133fa958bfcee0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:19 +0000
Subject: [PATCH 02/82] fix: Wilson scheme advances the clock just one time
 step

The time was shifted further away instead of moved back from the point where
the derivative is evaluated.
---
 source/Time.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Time.cpp b/source/Time.cpp
index bf0ef08..525ba3e 100644
--- a/source/Time.cpp
+++ b/source/Time.cpp
@@ -794,7 +794,7 @@ ImplicitWilsonScheme::Step(real& dt)
 	}
 
 	// Apply
-	t -= (1.f - _theta) * dt;
+	t -= tdt - dt;
 	r[1] = r[0] + rd[0].Wilson(rd[1], dt, tdt) * dt;
 	r[0] = r[1];
 	rd[0] = rd[1];
-- 
2.43.0


From be28c6f41ed3d482f507ecd36951eea509ea706d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:31 +0000
Subject: [PATCH 03/82] fix: changing the time scheme keeps the simulation
 clock

The new scheme restarted at t = 0, and the waves kept a dangling pointer to
the deleted one.
---
 source/MoorDyn2.hpp | 3 +++
 source/Waves.hpp    | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index 1f6c4ae..baf41a5 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -369,8 +369,11 @@ class MoorDyn final : public io::IO
 	 * @return The time integrator
 	 */
 	inline void SetTimeScheme(TimeScheme* tscheme) {
+		const real t = _t_integrator ? _t_integrator->GetTime() : 0.0;
 		if (_t_integrator) delete _t_integrator;
 		_t_integrator = tscheme;
+		_t_integrator->SetTime(t);
+		waves->setTimeScheme(_t_integrator);
 		_t_integrator->SetGround(GroundBody);
 		for (auto obj : BodyList)
 			_t_integrator->AddBody(obj);
diff --git a/source/Waves.hpp b/source/Waves.hpp
index 118a9ab..08d06a3 100644
--- a/source/Waves.hpp
+++ b/source/Waves.hpp
@@ -426,6 +426,12 @@ class Waves : public LogUser
 	 */
 	void updateWaves();
 
+	/**
+	 * @brief Set the time integrator the current time is taken from
+	 * @param t The time integrator
+	 */
+	inline void setTimeScheme(moordyn::TimeScheme* t) { _t_integrator = t; }
+
 	/**
 	 * @brief Adds a line to the list of structures we calculate water
 	 * kinematics for
-- 
2.43.0


From 6ee941a113ec0e2305e0f8d31dc654eabbb290b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:57 +0000
Subject: [PATCH 04/82] fix: local time stepping counters are part of the saved
 state

---
 source/Time.cpp |  2 ++
 source/Time.hpp | 52 +++++++++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 52 insertions(+), 2 deletions(-)

diff --git a/source/Time.cpp b/source/Time.cpp
index 525ba3e..51c5dbd 100644
--- a/source/Time.cpp
+++ b/source/Time.cpp
@@ -297,6 +297,8 @@ LocalTimeSchemeBase<NSTATE, NDERIV>::ComputeDt()
 	for (auto obj : this->bodies)
 		dt = (std::min)(dt, obj->cfl2dt(this->cfl));
 
+	_dt0 = deltat();
+	_dt = deltat();
 	for (auto line : this->lines) {
 		const real dt_line = line->cfl2dt(this->cfl);
 		_dt0.lines.push_back(0.999 * dt_line);
diff --git a/source/Time.hpp b/source/Time.hpp
index 58c5f0c..8f0a2ca 100644
--- a/source/Time.hpp
+++ b/source/Time.hpp
@@ -890,6 +890,54 @@ class LocalTimeSchemeBase : public TimeSchemeBase<NSTATE, NDERIV>
 		ComputeDt();
 	}
 
+	/** @brief Produce the packed data to be saved
+	 *
+	 * On top of the states and derivatives, which instances will be recomputed
+	 * on the next time steps is also part of the state of the scheme
+	 * @return The packed data
+	 */
+	virtual std::vector<uint64_t> Serialize(void)
+	{
+		std::vector<uint64_t> data =
+		    TimeSchemeBase<NSTATE, NDERIV>::Serialize();
+		for (auto dts : { &_dt.lines, &_dt.points, &_dt.rods, &_dt.bodies })
+			for (const real dt : *dts)
+				data.push_back(io::IO::Serialize(dt));
+		for (auto mask : { &this->_calc_mask.lines,
+		                   &this->_calc_mask.points,
+		                   &this->_calc_mask.rods,
+		                   &this->_calc_mask.bodies })
+			for (const bool flag : *mask)
+				data.push_back(io::IO::Serialize((uint64_t)flag));
+
+		return data;
+	}
+
+	/** @brief Unpack the data to restore the Serialized information
+	 *
+	 * This is the inverse of Serialize(void)
+	 * @param data The packed data
+	 * @return A pointer to the end of the file, for debugging purposes
+	 */
+	virtual uint64_t* Deserialize(const uint64_t* data)
+	{
+		uint64_t* ptr = TimeSchemeBase<NSTATE, NDERIV>::Deserialize(data);
+		for (auto dts : { &_dt.lines, &_dt.points, &_dt.rods, &_dt.bodies })
+			for (real& dt : *dts)
+				ptr = io::IO::Deserialize(ptr, dt);
+		for (auto mask : { &this->_calc_mask.lines,
+		                   &this->_calc_mask.points,
+		                   &this->_calc_mask.rods,
+		                   &this->_calc_mask.bodies })
+			for (unsigned int i = 0; i < mask->size(); i++) {
+				uint64_t flag;
+				ptr = io::IO::Deserialize(ptr, flag);
+				(*mask)[i] = flag != 0;
+			}
+
+		return ptr;
+	}
+
   protected:
 	/** @brief Costructor
 	 * @param log Logging handler
@@ -1081,7 +1129,7 @@ class ABScheme : public LocalTimeSchemeBase<1, 5>
 	 */
 	virtual std::vector<uint64_t> Serialize(void)
 	{
-		std::vector<uint64_t> data = TimeSchemeBase::Serialize();
+		std::vector<uint64_t> data = LocalTimeSchemeBase::Serialize();
 		// We append the number of available steps
 		data.push_back(io::IO::Serialize((uint64_t)n_steps));
 
@@ -1097,7 +1145,7 @@ class ABScheme : public LocalTimeSchemeBase<1, 5>
 	 */
 	virtual uint64_t* Deserialize(const uint64_t* data)
 	{
-		uint64_t* ptr = TimeSchemeBase::Deserialize(data);
+		uint64_t* ptr = LocalTimeSchemeBase::Deserialize(data);
 		uint64_t n;
 		ptr = io::IO::Deserialize(ptr, n);
 		n_steps = n;
-- 
2.43.0


From 65b67d90f55c7f2b4541c844b8820f1570de963c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:20 +0000
Subject: [PATCH 05/82] fix: accelerations of coupled bodies and rods are part
 of the saved state

---
 source/Body.cpp | 6 ++++++
 source/Rod.cpp  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/source/Body.cpp b/source/Body.cpp
index 0a68ced..0c22e58 100644
--- a/source/Body.cpp
+++ b/source/Body.cpp
@@ -673,6 +673,10 @@ Body::Serialize(void)
 	data.insert(data.end(), subdata.begin(), subdata.end());
 	subdata = io::IO::Serialize(OrMat);
 	data.insert(data.end(), subdata.begin(), subdata.end());
+	subdata = io::IO::Serialize(a6);
+	data.insert(data.end(), subdata.begin(), subdata.end());
+	subdata = io::IO::Serialize(rdd_ves);
+	data.insert(data.end(), subdata.begin(), subdata.end());
 
 	return data;
 }
@@ -688,6 +692,8 @@ Body::Deserialize(const uint64_t* data)
 	ptr = io::IO::Deserialize(ptr, F6net);
 	ptr = io::IO::Deserialize(ptr, M);
 	ptr = io::IO::Deserialize(ptr, OrMat);
+	ptr = io::IO::Deserialize(ptr, a6);
+	ptr = io::IO::Deserialize(ptr, rdd_ves);
 
 	return ptr;
 }
diff --git a/source/Rod.cpp b/source/Rod.cpp
index d3c0344..223f9ba 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -1467,6 +1467,10 @@ Rod::Serialize(void)
 	data.insert(data.end(), subdata.begin(), subdata.end());
 	subdata = io::IO::Serialize(rd_ves);
 	data.insert(data.end(), subdata.begin(), subdata.end());
+	subdata = io::IO::Serialize(acc6);
+	data.insert(data.end(), subdata.begin(), subdata.end());
+	subdata = io::IO::Serialize(rdd_ves);
+	data.insert(data.end(), subdata.begin(), subdata.end());
 
 	return data;
 }
@@ -1502,6 +1506,8 @@ Rod::Deserialize(const uint64_t* data)
 	ptr = io::IO::Deserialize(ptr, h0);
 	ptr = io::IO::Deserialize(ptr, r_ves);
 	ptr = io::IO::Deserialize(ptr, rd_ves);
+	ptr = io::IO::Deserialize(ptr, acc6);
+	ptr = io::IO::Deserialize(ptr, rdd_ves);
 
 	return ptr;
 }
-- 
2.43.0


From 41453369689b938b15b10ae9e2599c068e5142fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:32 +0000
Subject: [PATCH 06/82] fix: initialise the whole kinematics of bodies and rods

---
 source/Body.cpp |  7 +++++++
 source/Rod.cpp  | 14 +++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/source/Body.cpp b/source/Body.cpp
index 0c22e58..30c0598 100644
--- a/source/Body.cpp
+++ b/source/Body.cpp
@@ -83,6 +83,7 @@ Body::setup(int number_in,
 	} else if (type == FIXED){ // fixed bodies have no need for these variables other than position...
 		bodyM = 0.0;
 		bodyV = 0.0;
+		body_rCG = vec::Zero();
 		bodyI = vec::Zero();
 		bodyCdA = vec6::Zero();
 		bodyCa = vec6::Zero();
@@ -125,6 +126,12 @@ Body::setup(int number_in,
 	r7.quat = Euler2Quat(body_r6.tail<3>());
 
 	v6 = vec6::Zero();
+	a6 = vec6::Zero();
+	r_ves = body_r6;
+	rd_ves = vec6::Zero();
+	rdd_ves = vec6::Zero();
+	F6net = vec6::Zero();
+	M = M0;
 
 	// calculate orientation matrix based on latest angles
 	OrMat = r7.quat.normalized().toRotationMatrix();
diff --git a/source/Rod.cpp b/source/Rod.cpp
index 223f9ba..7c470ba 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -146,6 +146,18 @@ Rod::setup(int number_in,
 	// Initialize the accelerations to avoid border cases, like Pinned rods
 	// reading the linear acceleration without setting it
 	acc6 = vec6::Zero();
+	r7 = XYZQuat::Zero();
+	v6 = vec6::Zero();
+	r_ves = vec6::Zero();
+	rd_ves = vec6::Zero();
+	rdd_ves = vec6::Zero();
+	FextA = vec::Zero();
+	FextB = vec::Zero();
+	Mext = vec::Zero();
+	F6net = vec6::Zero();
+	M6net = mat6::Zero();
+	h0 = 0.0;
+	t = 0.0;
 	// set Rod positions if applicable
 	if (type == FREE) {
 		// For an independent rod, set the position right off the bat
@@ -168,7 +180,7 @@ Rod::setup(int number_in,
 	const vec org = endCoords(Eigen::seqN(0, 3));
 	const vec dst = endCoords(Eigen::seqN(3, 3));
 	for (unsigned int i = 0; i <= N; i++) {
-		const real f = i / (real)N;
+		const real f = N ? i / (real)N : 0.0;
 		r[i] = org + f * (dst - org);
 		rd[i] = vec::Zero();
 	}
-- 
2.43.0


From 7bea445c1b1ecfc5001f024dbd4a7d789b0e3a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:32 +0000
Subject: [PATCH 07/82] fix: null vectors are rejected by Init and Step

---
 source/MoorDyn2.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 7e6a452..a595fd1 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -405,10 +405,11 @@ moordyn::MoorDyn::icStationary()
 moordyn::error_id
 moordyn::MoorDyn::Init(const double* x, const double* xd, bool skip_ic)
 {
-	if (NCoupledDOF() && !x) {
+	if (NCoupledDOF() && (!x || !xd)) {
 		LOGERR << "ERROR: "
-		       << "MoorDyn::Init received a Null position vector, "
+		       << "MoorDyn::Init received a Null position or velocity vector, "
 		       << "but " << NCoupledDOF() << "components are required" << endl;
+		return MOORDYN_INVALID_VALUE;
 	}
 
 	// <<<<<<<<< need to add bodys
@@ -629,6 +630,7 @@ moordyn::MoorDyn::Step(const double* x,
 	if (NCoupledDOF() && (!x || !xd || !f)) {
 		LOGERR << "Null Pointer received in " << __FUNC_NAME__ << " ("
 		       << XSTR(__FILE__) << ":" << __LINE__ << ")" << endl;
+		return MOORDYN_INVALID_VALUE;
 	}
 
 	unsigned int ix = 0;
@@ -2420,6 +2422,11 @@ MoorDyn_Step(MoorDyn system,
              double* dt)
 {
 	CHECK_SYSTEM(system);
+	if (!t || !dt) {
+		cerr << "Null time or time step received in " << __FUNC_NAME__ << " ("
+		     << XSTR(__FILE__) << ":" << __LINE__ << ")" << endl;
+		return MOORDYN_INVALID_VALUE;
+	}
 	return ((moordyn::MoorDyn*)system)->Step(x, xd, f, *t, *dt);
 }
 
-- 
2.43.0


From 8ab8c5f6af02648bfc5a9aadd757975dafd50a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:32 +0000
Subject: [PATCH 08/82] fix: errors found while initialising are returned by
 the C API

---
 source/MoorDyn2.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index a595fd1..9397c9d 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -2403,14 +2403,32 @@ int DECLDIR
 MoorDyn_Init(MoorDyn system, const double* x, const double* xd)
 {
 	CHECK_SYSTEM(system);
-	return ((moordyn::MoorDyn*)system)->Init(x, xd);
+	moordyn::error_id err = MOORDYN_SUCCESS;
+	string err_msg;
+	try {
+		err = ((moordyn::MoorDyn*)system)->Init(x, xd);
+	}
+	MOORDYN_CATCHER(err, err_msg);
+	if (err != MOORDYN_SUCCESS)
+		cerr << "Error (" << err << ") in " << __FUNC_NAME__ << ": " << err_msg
+		     << endl;
+	return err;
 }
 
 int DECLDIR
 MoorDyn_Init_NoIC(MoorDyn system, const double* x, const double* xd)
 {
 	CHECK_SYSTEM(system);
-	return ((moordyn::MoorDyn*)system)->Init(x, xd, true);
+	moordyn::error_id err = MOORDYN_SUCCESS;
+	string err_msg;
+	try {
+		err = ((moordyn::MoorDyn*)system)->Init(x, xd, true);
+	}
+	MOORDYN_CATCHER(err, err_msg);
+	if (err != MOORDYN_SUCCESS)
+		cerr << "Error (" << err << ") in " << __FUNC_NAME__ << ": " << err_msg
+		     << endl;
+	return err;
 }
 
 int DECLDIR
-- 
2.43.0


From 79c12b9257c48f0910ab73776cc372993338c598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:32 +0000
Subject: [PATCH 09/82] fix: coupled pinned bodies take the 6 entries they are
 counted for

---
 source/MoorDyn2.cpp | 8 ++++----
 source/MoorDyn2.hpp | 7 +++++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 9397c9d..8749262 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -440,13 +440,13 @@ moordyn::MoorDyn::Init(const double* x, const double* xd, bool skip_ic)
 			moordyn::array2vec6(xd + ix, rd);
 			ix += 6;
 		} else {
-			// for pinned body 3 entries will be taken
+			// for pinned bodies the rotations are ignored
 			vec3 r3, rd3, rdd3;
 			moordyn::array2vec(x + ix, r3);
 			r(Eigen::seqN(0, 3)) = r3;
 			moordyn::array2vec(xd + ix, rd3);
 			rd(Eigen::seqN(0, 3)) = rd3;
-			ix += 3;
+			ix += 6;
 		}
 		BodyList[l]->initializeUnfreeBody(r, rd, vec6::Zero());
 	}
@@ -649,7 +649,7 @@ moordyn::MoorDyn::Step(const double* x,
 			rdd = (rd - rd_b) / dt;
 			ix += 6;
 		} else {
-			// for pinned body 3 entries will be taken
+			// for pinned bodies the rotations are ignored
 			vec3 r3, rd3, rdd3;
 			moordyn::array2vec(x + ix, r3);
 			r(Eigen::seqN(0, 3)) = r3;
@@ -657,7 +657,7 @@ moordyn::MoorDyn::Step(const double* x,
 			rd(Eigen::seqN(0, 3)) = rd3;
 			// determine acceleration 
 		    rdd(Eigen::seqN(0, 3)) = (rd3 - rd_b.head<3>()) / dt;
-			ix += 3;
+			ix += 6;
 		}
 		// acceleration required for inertial terms
 		BodyList[l]->initiateStep(r, rd, rdd);
diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index baf41a5..11c2d17 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -511,8 +511,11 @@ class MoorDyn final : public io::IO
 				moordyn::vec62array(f_i, f + ix);
 				ix += 6; // for coupled bodies 6 entries will be taken
 			} else {
-				moordyn::vec2array(f_i(Eigen::seqN(0, 3)), f + ix);
-				ix += 3; // for pinned bodies 3 entries will be taken
+				// for pinned bodies there are no moments to be transmitted
+				vec6 f_pin = vec6::Zero();
+				f_pin.head<3>() = f_i.head<3>();
+				moordyn::vec62array(f_pin, f + ix);
+				ix += 6;
 			}
 		}
 		for (auto l : CpldRodIs) {
-- 
2.43.0


From 41c2ffc1d8282d8f95bf2afaaa5a07f2dc96f17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:49 +0000
Subject: [PATCH 10/82] fix: checkpoints of other systems or with a corrupted
 length are refused before loading

---
 source/IO.cpp       | 15 ++++++++++-----
 source/IO.hpp       |  8 ++++++++
 source/MoorDyn2.hpp |  5 +++++
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/source/IO.cpp b/source/IO.cpp
index 895b5c1..14be66c 100644
--- a/source/IO.cpp
+++ b/source/IO.cpp
@@ -274,11 +274,16 @@ IO::Load(const std::string filepath)
 	// Check that the amount of information is correct
 	uint64_t length;
 	f.read((char*)&length, sizeof(uint64_t));
-	const uint64_t size = length * sizeof(uint64_t);
-	if (size != fsize - header_size) {
-		LOGERR << fsize - header_size
-		       << " bytes of data are available in file '" << filepath
-		       << "' but " << size << " bytes are declared" << endl;
+	const uint64_t size = fsize - header_size;
+	if ((size % sizeof(uint64_t)) || (length != size / sizeof(uint64_t))) {
+		LOGERR << size << " bytes of data are available in file '" << filepath
+		       << "' but " << length << " integers are declared" << endl;
+		throw moordyn::input_error("Invalid size");
+	}
+	const uint64_t expected = SerializedSize();
+	if (expected && (length != expected)) {
+		LOGERR << length << " integers are declared in file '" << filepath
+		       << "' but " << expected << " are required" << endl;
 		throw moordyn::input_error("Invalid size");
 	}
 
diff --git a/source/IO.hpp b/source/IO.hpp
index 0a0c75b..5aa95aa 100644
--- a/source/IO.hpp
+++ b/source/IO.hpp
@@ -108,6 +108,14 @@ class IO : public LogUser
 	virtual uint64_t* Deserialize(const uint64_t* data) = 0;
 
   protected:
+	/** @brief The amount of integers that Deserialize(void) would consume
+	 *
+	 * It is used to discard files which do not belong to this object before
+	 * changing anything
+	 * @return The number of integers, 0 if it is not known
+	 */
+	virtual uint64_t SerializedSize(void) { return 0; }
+
 	/** @brief Pack an unsigned integer to make it writable
 	 * @param i The unsigned integer number
 	 * @return The packed number
diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index 11c2d17..b772945 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -285,6 +285,11 @@ class MoorDyn final : public io::IO
 	 */
 	uint64_t* Deserialize(const uint64_t* data);
 
+	/** @brief The amount of integers that Deserialize(void) would consume
+	 * @return The number of integers
+	 */
+	uint64_t SerializedSize(void) { return Serialize().size(); }
+
 #ifdef USE_VTK
 	/** @brief Produce a VTK object of the whole system
 	 * @return The new VTK object
-- 
2.43.0


From eec950466079c3522186dd727c89a04e33822372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:49 +0000
Subject: [PATCH 11/82] fix: any floating point value can be saved and restored

---
 source/IO.cpp | 110 +++++++++-----------------------------------------
 1 file changed, 20 insertions(+), 90 deletions(-)

diff --git a/source/IO.cpp b/source/IO.cpp
index 14be66c..336d304 100644
--- a/source/IO.cpp
+++ b/source/IO.cpp
@@ -30,6 +30,7 @@
 
 #include "IO.hpp"
 #include <climits>
+#include <cstring>
 #include <iostream>
 #include <fstream>
 #include <stdlib.h>
@@ -49,112 +50,41 @@ namespace io {
 
 /** @brief Pack a floating point number into an integer
  *
- * This operation can be reverted with unpack754(). However, the result is still
- * non-portable, since the resulting integer must have different endianness
+ * This operation can be reverted with unpack754_64(). However, the result is
+ * still non-portable, since the resulting integer must have different
+ * endianness
  * @param f The floating point number
- * @param bits The number of bits of the mantissa
- * @param expbits The number of bits of the exponent
  * @return Packed number
- * @see unpack754()
+ * @see unpack754_64()
  * @see is_big_endian()
  * @see swap_endian
  */
-long long
-pack754(long double f, unsigned bits, unsigned expbits)
-{
-	long double fnorm;
-	int shift;
-	long long sign, exp, significand;
-	unsigned significandbits = bits - expbits - 1; // -1 for sign bit
-
-	if (f == 0.0)
-		return 0; // get this special case out of the way
-
-	// check sign and begin normalization
-	if (f < 0) {
-		sign = 1;
-		fnorm = -f;
-	} else {
-		sign = 0;
-		fnorm = f;
-	}
-
-	// get the normalized form of f and track the exponent
-	shift = 0;
-	while (fnorm >= 2.0) {
-		fnorm /= 2.0;
-		shift++;
-	}
-	while (fnorm < 1.0) {
-		fnorm *= 2.0;
-		shift--;
-	}
-	fnorm = fnorm - 1.0;
-
-	// calculate the binary form (non-float) of the significant data
-	significand = fnorm * ((1LL << significandbits) + 0.5f);
-
-	// get the biased exponent
-	exp = shift + ((1 << (expbits - 1)) - 1); // shift + bias
-
-	// return the final answer
-	return (sign << (bits - 1)) | (exp << (bits - expbits - 1)) | significand;
+inline int64_t
+pack754_64(double f)
+{
+	static_assert(sizeof(double) == sizeof(int64_t), "Invalid double type");
+	int64_t i;
+	std::memcpy(&i, &f, sizeof(i));
+	return i;
 }
 
 /** @brief Unpack a floating point number from an integer
  *
- * This operation is the inverse of pack754()
+ * This operation is the inverse of pack754_64()
  * @param i The packed integer
- * @param bits The number of bits of the mantissa
- * @param expbits The number of bits of the exponent
  * @return The unpacket floating point number
- * @see pack754()
+ * @see pack754_64()
  * @see is_big_endian()
  * @see swap_endian
  */
-long double
-unpack754(long long i, unsigned bits, unsigned expbits)
-{
-	long double result;
-	long long shift;
-	unsigned bias;
-	unsigned significandbits = bits - expbits - 1; // -1 for sign bit
-
-	if (i == 0)
-		return 0.0;
-
-	// pull the significand
-	result = (i & ((1LL << significandbits) - 1)); // mask
-	result /= (1LL << significandbits);            // convert back to float
-	result += 1.0f;                                // add the one back on
-
-	// deal with the exponent
-	bias = (1 << (expbits - 1)) - 1;
-	shift = ((i >> significandbits) & ((1LL << expbits) - 1)) - bias;
-	while (shift > 0) {
-		result *= 2.0;
-		shift--;
-	}
-	while (shift < 0) {
-		result /= 2.0;
-		shift++;
-	}
-
-	// sign it
-	result *= (i >> (bits - 1)) & 1 ? -1.0 : 1.0;
-
-	return result;
+inline double
+unpack754_64(int64_t i)
+{
+	double f;
+	std::memcpy(&f, &i, sizeof(f));
+	return f;
 }
 
-/// Pack IEEE754 32bits float numbers
-#define pack754_32(f) (pack754((f), 32, 8))
-/// Pack IEEE754 64bits double numbers
-#define pack754_64(f) (pack754((f), 64, 11))
-/// Unpack IEEE754 32bits float numbers
-#define unpack754_32(i) (unpack754((i), 32, 8))
-/// Unpack IEEE754 64bits double numbers
-#define unpack754_64(i) (unpack754((i), 64, 11))
-
 /** @brief CHeck if the platform is big endian
  * @return true for big endian platforms, false otherwise
  */
-- 
2.43.0


From 384a2d53f9f984d2aac506cccce0e3e6581bd737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:19 +0000
Subject: [PATCH 12/82] fix: changing the time scheme keeps the state of the
 entities

---
 source/MoorDyn2.cpp |  2 --
 source/MoorDyn2.hpp | 13 ++++++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 8749262..1cb3029 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -2719,9 +2719,7 @@ MoorDyn_SetTimeScheme(MoorDyn system, const char* name)
 		     << err_msg << endl;
 		return err;
 	}
-	auto state = sys->GetTimeScheme()->GetState();
 	sys->SetTimeScheme(tscheme);
-	tscheme->SetState(state);
 
 	return MOORDYN_SUCCESS;
 }
diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index b772945..101810b 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -374,8 +374,13 @@ class MoorDyn final : public io::IO
 	 * @return The time integrator
 	 */
 	inline void SetTimeScheme(TimeScheme* tscheme) {
-		const real t = _t_integrator ? _t_integrator->GetTime() : 0.0;
-		if (_t_integrator) delete _t_integrator;
+		real t = 0.0;
+		MoorDynState state;
+		if (_t_integrator) {
+			t = _t_integrator->GetTime();
+			state = _t_integrator->GetState();
+			delete _t_integrator;
+		}
 		_t_integrator = tscheme;
 		_t_integrator->SetTime(t);
 		waves->setTimeScheme(_t_integrator);
@@ -389,7 +394,9 @@ class MoorDyn final : public io::IO
 		for (auto obj : LineList)
 			_t_integrator->AddLine(obj);
 		_t_integrator->SetCFL(cfl);
-		_t_integrator->Init();
+		// Resume from the current state. Calling Init() would take the entities
+		// back to their initial condition
+		_t_integrator->SetState(state);
 	}
 
   protected:
-- 
2.43.0


From 1309de21c2763c55634e7ca07f58f607184059d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:45 +0000
Subject: [PATCH 13/82] fix: the interior nodes of the rods follow their ends

---
 source/Rod.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/Rod.cpp b/source/Rod.cpp
index 7c470ba..da0096e 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -571,6 +571,12 @@ Rod::setDependentStates()
 		r[N] = r[0] + rRel;
 		const vec w = v6.tail<3>();
 		rd[N] = rd[0] + w.cross(rRel);
+		// and stretch the interior nodes between them
+		for (unsigned int i = 1; i < N; i++) {
+			const real f = i / (real)N;
+			r[i] = r[0] + f * (r[N] - r[0]);
+			rd[i] = rd[0] + f * (rd[N] - rd[0]);
+		}
 	}
 
 	// pass end node kinematics to any attached lines (this is just like what a
-- 
2.43.0


From db80ffe09d5ec29bd2add55bdd6dfc401c7cf3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:04 +0000
Subject: [PATCH 14/82] fix: implicit time schemes require a positive number of
 iterations

---
 source/Time.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/source/Time.cpp b/source/Time.cpp
index 51c5dbd..8911a44 100644
--- a/source/Time.cpp
+++ b/source/Time.cpp
@@ -804,6 +804,20 @@ ImplicitWilsonScheme::Step(real& dt)
 	TimeSchemeBase::Step(dt);
 }
 
+/** @brief Parse the number of iterations of an implicit scheme
+ * @param txt The text after the scheme name
+ * @return The number of iterations
+ * @throw std::invalid_argument If it is not a positive number
+ */
+static unsigned int
+parse_iters(const std::string& txt)
+{
+	const int iters = std::stoi(txt);
+	if (iters < 1)
+		throw std::invalid_argument("At least an iteration is required");
+	return iters;
+}
+
 TimeScheme*
 create_time_scheme(const std::string& name,
                    moordyn::Log* log,
@@ -834,7 +848,7 @@ create_time_scheme(const std::string& name,
 		out = new ABScheme<4, false>(log, waves);
 	} else if (str::startswith(str::lower(name), "beuler")) {
 		try {
-			unsigned int iters = std::stoi(name.substr(6));
+			unsigned int iters = parse_iters(name.substr(6));
 			out = new ImplicitEulerScheme(log, waves, iters, 1.0);
 		} catch (std::invalid_argument) {
 			stringstream s;
@@ -843,7 +857,7 @@ create_time_scheme(const std::string& name,
 		}
 	} else if (str::startswith(str::lower(name), "midpoint")) {
 		try {
-			unsigned int iters = std::stoi(name.substr(8));
+			unsigned int iters = parse_iters(name.substr(8));
 			out = new ImplicitEulerScheme(log, waves, iters, 0.5);
 		} catch (std::invalid_argument) {
 			stringstream s;
@@ -852,7 +866,7 @@ create_time_scheme(const std::string& name,
 		}
 	} else if (str::startswith(str::lower(name), "anderson")) {
 		try {
-			unsigned int iters = std::stoi(name.substr(8));
+			unsigned int iters = parse_iters(name.substr(8));
 			out = new AndersonEulerScheme(log, waves, iters, 0.5);
 		} catch (std::invalid_argument) {
 			stringstream s;
@@ -861,7 +875,7 @@ create_time_scheme(const std::string& name,
 		}
 	} else if (str::startswith(str::lower(name), "aca")) {
 		try {
-			unsigned int iters = std::stoi(name.substr(3));
+			unsigned int iters = parse_iters(name.substr(3));
 			out = new ImplicitNewmarkScheme(log, waves, iters, 0.5, 0.25);
 		} catch (std::invalid_argument) {
 			stringstream s;
@@ -871,7 +885,7 @@ create_time_scheme(const std::string& name,
 		}
 	} else if (str::startswith(str::lower(name), "wilson")) {
 		try {
-			unsigned int iters = std::stoi(name.substr(6));
+			unsigned int iters = parse_iters(name.substr(6));
 			out = new ImplicitWilsonScheme(log, waves, iters, 1.37);
 		} catch (std::invalid_argument) {
 			stringstream s;
-- 
2.43.0


From 30c2ef0626c5e7b07fb8cd256af5c71a9f2dbc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:04 +0000
Subject: [PATCH 15/82] fix: log files which cannot be opened are returned as
 errors by the C API

---
 source/MoorDyn2.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 1cb3029..ee50a37 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -2371,8 +2371,17 @@ int DECLDIR
 MoorDyn_SetLogFile(MoorDyn system, const char* log_path)
 {
 	CHECK_SYSTEM(system);
-	((moordyn::MoorDyn*)system)->GetLogger()->SetFile(log_path);
-	return MOORDYN_SUCCESS;
+	moordyn::error_id err = MOORDYN_SUCCESS;
+	string err_msg;
+	try {
+		((moordyn::MoorDyn*)system)->GetLogger()->SetFile(log_path);
+	}
+	MOORDYN_CATCHER(err, err_msg);
+	if (err != MOORDYN_SUCCESS) {
+		cerr << "Error (" << err << ") at " << __FUNC_NAME__ << "():" << endl
+		     << err_msg << endl;
+	}
+	return err;
 }
 
 int DECLDIR
-- 
2.43.0


From 800fde0c1135fb1d0654ce2b0b4e4837c30a653b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:48 +0000
Subject: [PATCH 16/82] fix: rods pinned to a rotated body are defined in the
 body frame

The end B of the rods pinned to a body was placed as if the body was not
rotated, while both ends are documented to be relative to the body frame.
---
 source/Body.cpp |  9 ++++++++-
 source/Rod.cpp  |  5 ++++-
 source/Rod.hpp  | 11 +++++++++++
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/source/Body.cpp b/source/Body.cpp
index 30c0598..a874178 100644
--- a/source/Body.cpp
+++ b/source/Body.cpp
@@ -182,6 +182,10 @@ Body::initializeUnfreeBody(vec6 r6_in, vec6 v6_in, vec6 a6_in)
 	initiateStep(r6_in, v6_in, a6_in);
 	updateFairlead(0.0);
 
+	// The rods pinned to the body are also defined in its reference frame
+	for (auto attached : attachedR)
+		if (attached->type == Rod::PINNED)
+			attached->setInitialOrientation(r7.quat);
 	// If any Rod is fixed to the body (not pinned), initialize it now because
 	// otherwise it won't be initialized
 	for (auto attached : attachedR)
@@ -209,9 +213,12 @@ Body::initialize()
 	if (type == FREE) { // Attached objects already initalized for coupled pinned body
 		// If any Rod is fixed to the body (not pinned), initialize it now because
 		// otherwise it won't be initialized
-		for (auto attached : attachedR)
+		for (auto attached : attachedR) {
 			if (attached->type == Rod::FIXED)
 				attached->initialize();
+			else if (attached->type == Rod::PINNED)
+				attached->setInitialOrientation(r7.quat);
+		}
 		// If there's an attached Point, initialize it now because it won't be
 		// initialized otherwise
 		for (auto attached : attachedP)
diff --git a/source/Rod.cpp b/source/Rod.cpp
index da0096e..7969926 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -341,11 +341,14 @@ Rod::initialize()
 
 	// copy over state values for potential use during derivative calculations
 	// Regarding the angles, they are always initialized as zeroes, considering
-	// q0 as the reference for the orientation-related transformations
+	// q0 as the reference for the orientation-related transformations, except
+	// for the rods pinned to a rotated body
 	XYZQuat pos = XYZQuat::Zero();
 	vec6 vel = vec6::Zero();
 	if (type == FREE)
 		pos.pos = r[0];
+	else if (type == PINNED)
+		pos.quat = r7.quat;
 
 	LOGMSG << "Initialized Rod " << number << endl;
 	return std::make_pair(pos, vel);
diff --git a/source/Rod.hpp b/source/Rod.hpp
index 9851a40..5b77e22 100644
--- a/source/Rod.hpp
+++ b/source/Rod.hpp
@@ -498,6 +498,17 @@ class Rod final : public io::IO, public SuperCFL
 	 */
 	void updateFairlead(real time);
 
+	/** @brief Set the initial orientation of the rod with respect to the axis
+	 * defined in the input file
+	 *
+	 * To be called by the body the rod is pinned to, which might be rotated
+	 * @param quat The orientation
+	 */
+	inline void setInitialOrientation(const quaternion& quat)
+	{
+		r7.quat = quat;
+	}
+
 	/** @brief Take the kinematics from the fairlead information
 	 *
 	 * set kinematics for Rods ONLY if they are attached to a body (including a
-- 
2.43.0


From 58dd8beed92ae426eb5d39064c678450956a7a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:29 +0000
Subject: [PATCH 17/82] fix: tabulated line properties take the second column
 of the file

The first column was read both as abscissa and ordinate
---
 source/MoorDyn2.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index 101810b..ddd384c 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -758,7 +758,7 @@ class MoorDyn final : public io::IO
 				return MOORDYN_INVALID_INPUT;
 			}
 			x.push_back(atof(entries[0].c_str()));
-			y.push_back(atof(entries[0].c_str()));
+			y.push_back(atof(entries[1].c_str()));
 			LOGDBG << "(" << x.back() << ", " << y.back() << ")" << std::endl;
 		}
 
@@ -793,7 +793,7 @@ class MoorDyn final : public io::IO
 
 		if (xv.size() == 1) {
 			*c = yv.back();
-			n = 0;
+			*n = 0;
 			return MOORDYN_SUCCESS;
 		}
 
-- 
2.43.0


From d2e2365939ed9bab0b149c32087e27bf17a73241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:29 +0000
Subject: [PATCH 18/82] fix: files of tabulated line properties may end with a
 new line

The empty line after the last one was refused as a bad curve point
---
 source/MoorDyn2.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index ddd384c..6bba310 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -737,7 +737,8 @@ class MoorDyn final : public io::IO
 			getline(f, fline);
 			if (i>2) { // skip first three lines as headers 
 				moordyn::str::rtrim(fline);
-				flines.push_back(fline);
+				if (!fline.empty())
+					flines.push_back(fline);
 			}
 			i++;
 		}
-- 
2.43.0


From 9a8b1a0ca1462c74f439a3caafe1535cb6211140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:29 +0000
Subject: [PATCH 19/82] fix: tabulated internal damping is a force which
 opposes the strain rate

It was NaN at zero strain rate, negative when compressing, and was multiplied by the cross section area
---
 source/Line.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/source/Line.cpp b/source/Line.cpp
index 75b9f3a..a1bb988 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -99,6 +99,8 @@ Line::getNonlinearC(real ld_stretched, real l_unstretched) const
 
 	real Xi = ld_stretched / l_unstretched; // stretching/compressing rate
 	real Yi = 0.0;
+	if (Xi == 0.0)
+		return 0.0; // there is nothing to damp
 
 	// find stress based on strain rate
 	if (dampXs[0] < 0) {
@@ -107,13 +109,9 @@ Line::getNonlinearC(real ld_stretched, real l_unstretched) const
 	} else {
 		// if no compressing data given, we'll flip-mirror so stretching and
 		// compressing are same
-		real Xsign = 1.0;
-		if (Xi < 0) {
-			Xsign = -1.0;
-			Xi = -Xi;
-		}
-		Yi = interp(dampXs, dampYs, Xi);
-		Yi *= Xsign;
+		Yi = interp(dampXs, dampYs, std::abs(Xi));
+		if (Xi < 0)
+			Yi = -Yi;
 	}
 
 	// calculate equivalent damping coefficient (since that's what MoorDyn works
@@ -181,7 +179,7 @@ Line::setup(int number_in,
 	nCpoints = props->nCpoints;
 	for (unsigned int I = 0; I < nCpoints; I++) {
 		dampXs.push_back(props->dampXs[I]);
-		dampYs.push_back(props->dampYs[I]);
+		dampYs.push_back(props->dampYs[I] / A);
 	}
 
 	// Initialize API provided info
-- 
2.43.0


From 17b04161bc9bbbb95ec52d30491e39e3afbb9e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:29 +0000
Subject: [PATCH 20/82] fix: the seabed force of a node does not include the
 bending forces

---
 source/Line.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Line.hpp b/source/Line.hpp
index 608a693..f446527 100644
--- a/source/Line.hpp
+++ b/source/Line.hpp
@@ -614,7 +614,7 @@ class Line final : public io::IO, public NatFreqCFL
 			       << ", which only has " << N + 1 << " nodes" << std::endl;
 			throw moordyn::invalid_value_error("Invalid node index");
 		}
-		return B[i] + Bs[i];
+		return B[i];
 	};
 
 	/** @brief Get the line curvature at a node position
-- 
2.43.0


From 510eb0c83cf0be33b8fed3c7eb195ea640ba119f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:29 +0000
Subject: [PATCH 21/82] fix: the whole 6x6 mass matrices are given by the C API

Just the first 3 rows were copied
---
 source/Misc.hpp | 42 ++++++------------------------------------
 1 file changed, 6 insertions(+), 36 deletions(-)

diff --git a/source/Misc.hpp b/source/Misc.hpp
index c106fb5..f2258aa 100644
--- a/source/Misc.hpp
+++ b/source/Misc.hpp
@@ -422,24 +422,9 @@ template<typename T>
 inline void
 mat62array(const mat6& v, T a[6][6])
 {
-	a[0][0] = (T)v(0, 0);
-	a[0][1] = (T)v(0, 1);
-	a[0][2] = (T)v(0, 2);
-	a[0][3] = (T)v(0, 3);
-	a[0][4] = (T)v(0, 4);
-	a[0][5] = (T)v(0, 5);
-	a[1][0] = (T)v(1, 0);
-	a[1][1] = (T)v(1, 1);
-	a[1][2] = (T)v(1, 2);
-	a[1][3] = (T)v(1, 3);
-	a[1][4] = (T)v(1, 4);
-	a[1][5] = (T)v(1, 5);
-	a[2][0] = (T)v(2, 0);
-	a[2][1] = (T)v(2, 1);
-	a[2][2] = (T)v(2, 2);
-	a[2][3] = (T)v(2, 3);
-	a[2][4] = (T)v(2, 4);
-	a[2][5] = (T)v(2, 5);
+	for (unsigned int i = 0; i < 6; i++)
+		for (unsigned int j = 0; j < 6; j++)
+			a[i][j] = (T)v(i, j);
 }
 
 /** @brief Convert a C-ish array to a matrix
@@ -450,24 +435,9 @@ template<typename T>
 inline void
 array2mat6(const T a[6][6], mat6& v)
 {
-	v(0, 0) = (moordyn::real)a[0][0];
-	v(0, 1) = (moordyn::real)a[0][1];
-	v(0, 2) = (moordyn::real)a[0][2];
-	v(0, 3) = (moordyn::real)a[0][3];
-	v(0, 4) = (moordyn::real)a[0][4];
-	v(0, 5) = (moordyn::real)a[0][5];
-	v(1, 0) = (moordyn::real)a[1][0];
-	v(1, 1) = (moordyn::real)a[1][1];
-	v(1, 2) = (moordyn::real)a[1][2];
-	v(1, 3) = (moordyn::real)a[1][3];
-	v(1, 4) = (moordyn::real)a[1][4];
-	v(1, 5) = (moordyn::real)a[1][5];
-	v(2, 0) = (moordyn::real)a[2][0];
-	v(2, 1) = (moordyn::real)a[2][1];
-	v(2, 2) = (moordyn::real)a[2][2];
-	v(2, 3) = (moordyn::real)a[2][3];
-	v(2, 4) = (moordyn::real)a[2][4];
-	v(2, 5) = (moordyn::real)a[2][5];
+	for (unsigned int i = 0; i < 6; i++)
+		for (unsigned int j = 0; j < 6; j++)
+			v(i, j) = (moordyn::real)a[i][j];
 }
 
 /** Slice a C++ vector
-- 
2.43.0


From 635fc6b7fb8694c983ea87226bfc7c9b21634810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:24 +0000
Subject: [PATCH 22/82] fix: loads of the fixed points, rods and bodies are
 computed

The net forces and the masses of the fixed entities were never evaluated, so those given by the C API and by the output channels were always null.
---
 source/Time.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/Time.cpp b/source/Time.cpp
index 8911a44..feee8ba 100644
--- a/source/Time.cpp
+++ b/source/Time.cpp
@@ -130,17 +130,17 @@ TimeSchemeBase<NSTATE, NDERIV>::CalcStateDeriv(unsigned int substep)
 	}
 
 	for (auto obj : points) {
-		if (obj->type != Point::COUPLED)
+		if ((obj->type != Point::COUPLED) && (obj->type != Point::FIXED))
 			continue;
 		obj->doRHS();
 	}
 	for (auto obj : rods) {
-		if (obj->type != Rod::COUPLED)
+		if ((obj->type != Rod::COUPLED) && (obj->type != Rod::FIXED))
 			continue;
 		obj->doRHS();
 	}
 	for (auto obj : bodies) {
-		if (obj->type != Body::COUPLED)
+		if ((obj->type != Body::COUPLED) && (obj->type != Body::FIXED))
 			continue;
 		obj->doRHS();
 	}
-- 
2.43.0


From 63de2a783ee25037102ba4f3bdb4ec40a7ff30a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:24 +0000
Subject: [PATCH 23/82] fix: submerged fraction of the rods which cross the
 surface upside down

The distance to the waterline is negative in this case, so every node was taken as fully submerged.
---
 source/Rod.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/Rod.cpp b/source/Rod.cpp
index 7969926..86969a7 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -980,10 +980,10 @@ Rod::doRHS()
 		// get scalar for submerged portion
 
 		if (h0 < 0.0) { // Upside down case
-			if (Lsum + dL >= h0) // if fully submerged
+			if (Lsum >= -h0) // if fully submerged
 				VOF0 = 1.0;
-			else if (Lsum > h0) // if partially below waterline
-				VOF0 = (h0 - Lsum) / dL;
+			else if (Lsum + dL > -h0) // if partially below waterline
+				VOF0 = (Lsum + dL + h0) / dL;
 			else // must be out of water
 				VOF0 = 0.0;
 		}
-- 
2.43.0


From 7813fa5b6c6176abb8eb3d9d6d86509e0a4a539e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:53 +0000
Subject: [PATCH 24/82] fix: the x component of the drag areas of the bodies is
 read

The loops over 3 or 6 drag areas started at the second one.
---
 source/MoorDyn2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index ee50a37..37724b7 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -1866,12 +1866,12 @@ moordyn::MoorDyn::readBody(string inputText)
 			CdA[i + 3] = CdA[3];
 		}
 	} else if (entries_CdA.size() == 3) {
-		for (unsigned int i = 1; i < 3; i++) {
+		for (unsigned int i = 0; i < 3; i++) {
 			CdA[i] = atof(entries_CdA[i].c_str());
 			CdA[i + 3] = CdA[i];
 		}
 	} else if (entries_CdA.size() == 6) {
-		for (unsigned int i = 1; i < 6; i++) {
+		for (unsigned int i = 0; i < 6; i++) {
 			CdA[i] = atof(entries_CdA[i].c_str());
 		}
 	} else {
-- 
2.43.0


From 3b63b760e8fe20dfe34ae4a11a8d8dcd369bc490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:49 +0000
Subject: [PATCH 25/82] fix: steps do not change the format of the standard
 output

The format flags of std::cout are shared with the driver and with every other system, so changing them is a data race when systems are driven from different threads.
---
 source/MoorDyn2.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 37724b7..6deea12 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -612,10 +612,9 @@ moordyn::MoorDyn::Step(const double* x,
                        double& dt)
 {
 	// should check if wave kinematics have been set up if expected!
-	const auto default_precision{std::cout.precision()};
-	std::cout << std::fixed << setprecision(1);
-	LOGDBG << "t = " << t << "s     \r";
-	std::cout << std::defaultfloat << setprecision(default_precision);
+	stringstream t_str;
+	t_str << std::fixed << setprecision(1) << t;
+	LOGDBG << "t = " << t_str.str() << "s     \r";
 
 	cout << "\rt = " << t << " " << flush;
 
-- 
2.43.0


From 4721bd8940c644bd64837703bfc045b1746246a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:14 +0000
Subject: [PATCH 26/82] fix: lines with a constant stiffness are reported as
 such

The returned flag was the opposite of the documented one.
---
 source/Line.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Line.hpp b/source/Line.hpp
index f446527..9b9dfd1 100644
--- a/source/Line.hpp
+++ b/source/Line.hpp
@@ -414,7 +414,7 @@ class Line final : public io::IO, public NatFreqCFL
 	 * @return true if the stiffness of the line is constant, false if a
 	 * non-linear stiffness has been set
 	 */
-	inline bool isConstantEA() const { return nEApoints > 0; }
+	inline bool isConstantEA() const { return nEApoints == 0; }
 
 	/** @brief Get the constant stiffness of the line
 	 *
-- 
2.43.0


From d182dcbf0affd9d1bbb40745db5b9ea0bf0ea465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:46 +0000
Subject: [PATCH 27/82] fix: wave grids are periodic in their last interval

The last interval of the period was interpolated from the first sample to itself instead of from the last sample to the first one.
---
 source/Waves.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/source/Waves.cpp b/source/Waves.cpp
index 1d7781f..e9ef4be 100644
--- a/source/Waves.cpp
+++ b/source/Waves.cpp
@@ -146,7 +146,13 @@ WaveGrid::getWaveKin(const vec3& pos,
 	}
 
 	// wave elevation
-	auto wave_elev = interp3(zetas, ix, iy, it, fx, fy, ft);
+	real wave_elev = interp3(zetas, ix, iy, it, fx, fy, ft);
+	// The series is periodic, so the last sample is followed by the first one.
+	// The interpolation filters cannot find it as the one before the index 0
+	const bool wrap = (nt > 1) && (it == 0);
+	if (wrap)
+		wave_elev = lerp(interp3(zetas, ix, iy, nt - 1, fx, fy, 1.0),
+		                 wave_elev, ft);
 
 	if (zeta) {
 		*zeta = wave_elev;
@@ -173,12 +179,25 @@ WaveGrid::getWaveKin(const vec3& pos,
 
 	if (vel) {
 		*vel = interp4Vec(wave_vel, ix, iy, iz, it, fx, fy, fz, ft);
+		if (wrap)
+			*vel = lerp<vec3>(
+			    interp4Vec(wave_vel, ix, iy, iz, nt - 1, fx, fy, fz, 1.0),
+			    *vel,
+			    ft);
 	}
 	if (acc) {
 		*acc = interp4Vec(wave_acc, ix, iy, iz, it, fx, fy, fz, ft);
+		if (wrap)
+			*acc = lerp<vec3>(
+			    interp4Vec(wave_acc, ix, iy, iz, nt - 1, fx, fy, fz, 1.0),
+			    *acc,
+			    ft);
 	}
 	if (pdyn) {
 		*pdyn = interp4(pDyn, ix, iy, iz, it, fx, fy, fz, ft);
+		if (wrap)
+			*pdyn = lerp(
+			    interp4(pDyn, ix, iy, iz, nt - 1, fx, fy, fz, 1.0), *pdyn, ft);
 	}
 }
 
-- 
2.43.0


From 00db20aeb5a75370f33bb2c3aee59f1946c08ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:46 +0000
Subject: [PATCH 28/82] fix: dynamic currents keep their last value after the
 end of the series

As documented, the series does not start again.
---
 source/Waves.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/Waves.cpp b/source/Waves.cpp
index e9ef4be..2310b28 100644
--- a/source/Waves.cpp
+++ b/source/Waves.cpp
@@ -238,8 +238,11 @@ CurrentGrid::getCurrentKin(const vec3& pos,
 		it = floor(quot);
 		ft = quot - it;
 		it++; // We use the upper bound
-		while (it > nt - 1)
-			it -= nt;
+		if (it > nt - 1) {
+			// Out of the series, so use the last value
+			it = nt - 1;
+			ft = 1.0;
+		}
 	}
 
 	// real stretched_z = 0.0;
-- 
2.43.0


From 34857f0a98e903467befedbb18b99607d0b6ae37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:46 +0000
Subject: [PATCH 29/82] fix: the first row of 4D currents files is read

---
 source/Waves/WaveGrid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Waves/WaveGrid.cpp b/source/Waves/WaveGrid.cpp
index 933a11b..86fde0f 100644
--- a/source/Waves/WaveGrid.cpp
+++ b/source/Waves/WaveGrid.cpp
@@ -827,7 +827,7 @@ construct4DCurrentGrid(const std::string& folder,
 	}
 
 	// Read values into 4D array
-	for (int i = 6; i < (int)lines.size(); i++) {
+	for (int i = 5; i < (int)lines.size(); i++) {
 		vector<string> entry = moordyn::str::split(lines[i]);
 
 		// Need to get indices (don't match coord values)
-- 
2.43.0


From 7b69ec0da7d1d237b9428b0455b0ca95958ddaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:46 +0000
Subject: [PATCH 30/82] fix: currents files with a single instant are not read
 out of bounds

---
 source/Waves/WaveGrid.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/Waves/WaveGrid.cpp b/source/Waves/WaveGrid.cpp
index 86fde0f..522322c 100644
--- a/source/Waves/WaveGrid.cpp
+++ b/source/Waves/WaveGrid.cpp
@@ -717,10 +717,11 @@ constructDynamicCurrentGrid(const std::string& folder,
 		unsigned iti = 1;
 		for (unsigned int it = 0; it < currentGrid->nt; it++) {
 			iti = interp_factor(UProfileT, iti, it * dtWave, ft);
+			const unsigned int iti0 = iti > 0 ? iti - 1 : 0;
 
-			auto x = lerp(UProfileUx[iz][iti - 1], UProfileUx[iz][iti], ft);
-			auto y = lerp(UProfileUy[iz][iti - 1], UProfileUy[iz][iti], ft);
-			auto z = lerp(UProfileUz[iz][iti - 1], UProfileUz[iz][iti], ft);
+			auto x = lerp(UProfileUx[iz][iti0], UProfileUx[iz][iti], ft);
+			auto y = lerp(UProfileUy[iz][iti0], UProfileUy[iz][iti], ft);
+			auto z = lerp(UProfileUz[iz][iti0], UProfileUz[iz][iti], ft);
 			currentGrid->CurrentVel()[0][0][iz][it] = vec3(x, y, z);
 			// TODO: approximate fluid accelerations using finite
 			//       differences
@@ -865,14 +866,15 @@ construct4DCurrentGrid(const std::string& folder,
 				unsigned iti = 1;
 				for (unsigned int it = 0; it < currentGrid->nt; it++) {
 					iti = interp_factor(UProfileT, iti, it * dtWave, ft);
+					const unsigned int iti0 = iti > 0 ? iti - 1 : 0;
 
-					auto x = lerp(currentGridUx[ix][iy][iz][iti - 1],
+					auto x = lerp(currentGridUx[ix][iy][iz][iti0],
 					              currentGridUx[ix][iy][iz][iti],
 					              ft);
-					auto y = lerp(currentGridUy[ix][iy][iz][iti - 1],
+					auto y = lerp(currentGridUy[ix][iy][iz][iti0],
 					              currentGridUy[ix][iy][iz][iti],
 					              ft);
-					auto z = lerp(currentGridUz[ix][iy][iz][iti - 1],
+					auto z = lerp(currentGridUz[ix][iy][iz][iti0],
 					              currentGridUz[ix][iy][iz][iti],
 					              ft);
 					currentGrid->CurrentVel()[ix][iy][iz][it] = vec3(x, y, z);
-- 
2.43.0


From ece07195f75a6f317ec836107607747c64b2e07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:46 +0000
Subject: [PATCH 31/82] fix: the files of lines and rods are written whichever
 the output requested

Just asking for curvatures, seabed forces or rod node forces created no file.
---
 source/MoorDyn2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 6deea12..4894405 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -1155,7 +1155,7 @@ moordyn::MoorDyn::ReadInFile()
 
 			// Make the output file (if queried)
 			if ((outchannels.size() > 0) &&
-			    (strcspn(outchannels.c_str(), "pvUDctsd") <
+			    (strcspn(outchannels.c_str(), "pKvUDctsdb") <
 			     strlen(outchannels.c_str()))) {
 				// if 1+ output flag chars are given and they're valid
 				stringstream oname;
@@ -2048,7 +2048,7 @@ moordyn::MoorDyn::readRod(string inputText)
 	}
 
 	// Make the output file (if queried)
-	if ((outchannels.size() > 0) && (strcspn(outchannels.c_str(), "pvUDctsd") <
+	if ((outchannels.size() > 0) && (strcspn(outchannels.c_str(), "pvf") <
 	                                 strlen(outchannels.c_str()))) {
 		// if 1+ output flag chars are given and they're valid
 		stringstream oname;
-- 
2.43.0


From e4c8b68b4aeffb8363ac8757d498d72bf11a2c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:46 +0000
Subject: [PATCH 32/82] fix: the initial instant is always written and output
 instants are not lost by round-off

---
 source/MoorDyn2.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 4894405..507695e 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -2282,9 +2282,14 @@ moordyn::MoorDyn::AllOutput(double t, double dt)
 	// if (env->writeLog == 0)
 	// 	return MOORDYN_SUCCESS;
 
-	if (dtOut > 0)
-		if (t < (floor((t - dt) / dtOut) + 1.0) * dtOut)
+	if ((dtOut > 0) && (dt > 0)) {
+		// Write just when an output instant is reached within this time step,
+		// tolerating the round-off errors accumulated by the time. The initial
+		// instant (dt = 0) is always written
+		const double tol = 1.0e-6;
+		if (floor(t / dtOut + tol) <= floor((t - dt) / dtOut + tol))
 			return MOORDYN_SUCCESS;
+	}
 
 	// write to master output file
 	if (!outfileMain.is_open()) {
-- 
2.43.0


From 1ec1233bf6631952a38247dc1f87f6b07f81e413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:46 +0000
Subject: [PATCH 33/82] fix: output channels of objects or nodes which do not
 exist are ignored

They were reading out of bounds.
---
 source/MoorDyn2.cpp | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 507695e..fd501e3 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -1365,6 +1365,26 @@ moordyn::MoorDyn::ReadInFile()
 				OutChanProps dummy;
 				dummy.Name = entries[j];
 
+				// check that the referenced object exists
+				const int objID = atoi(num1.c_str());
+				int nObjs = -1;
+				if (str::isOneOf(let1, { "FAIRTEN", "ANCHTEN", "L", "LINE" }))
+					nObjs = (int)LineList.size();
+				else if (str::isOneOf(let1, { "P", "POINT" }))
+					nObjs = (int)PointList.size();
+				else if (str::isOneOf(let1, { "R", "ROD" }))
+					nObjs = (int)RodList.size();
+				else if (str::isOneOf(let1, { "B", "BODY" }))
+					nObjs = (int)BodyList.size();
+				if ((nObjs >= 0) && ((objID < 1) || (objID > nObjs))) {
+					LOGWRN << "Warning in " << _filepath << ":" << i + 1
+					       << "..." << endl
+					       << "'" << in_txt[i] << "'" << endl
+					       << "invalid output specifier: " << entries[j]
+					       << ".  There is no such object." << endl;
+					continue;
+				}
+
 				// figure out what type of output it is and process
 				// accordingly
 				// TODO: add checks of first char of num1,2, let1,2,3 not
@@ -1566,6 +1586,21 @@ moordyn::MoorDyn::ReadInFile()
 					}
 				}
 
+				// check that the referenced node exists
+				int nNodes = -1;
+				if (dummy.OType == 1)
+					nNodes = (int)LineList[dummy.ObjID - 1]->getN() + 1;
+				else if (dummy.OType == 3)
+					nNodes = (int)RodList[dummy.ObjID - 1]->getN() + 1;
+				if ((nNodes >= 0) && (dummy.NodeID >= nNodes)) {
+					LOGWRN << "Warning in " << _filepath << ":" << i + 1
+					       << "..." << endl
+					       << "'" << in_txt[i] << "'" << endl
+					       << "invalid output specifier: " << entries[j]
+					       << ".  There is no such node." << endl;
+					continue;
+				}
+
 				// some name adjusting for special cases (maybe should
 				// handle this elsewhere...)
 				if ((dummy.OType == 3) && (dummy.QType == Ten)) {
-- 
2.43.0


From d8704c06ede79ffbfd8ccfbf11755f27e734bbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:46 +0000
Subject: [PATCH 34/82] fix: the files of coupled and fixed bodies have a
 header

---
 source/Body.cpp | 74 ++++++++++++++++++++++++++++---------------------
 source/Body.hpp |  5 ++++
 2 files changed, 47 insertions(+), 32 deletions(-)

diff --git a/source/Body.cpp b/source/Body.cpp
index a874178..2874720 100644
--- a/source/Body.cpp
+++ b/source/Body.cpp
@@ -172,6 +172,43 @@ Body::addRod(Rod* rod, vec6 coords)
 	r6RodRel.push_back(r6Rod);
 };
 
+void
+Body::openoutput()
+{
+	// create output file for writing output (and write channel header and units
+	// lines) if applicable
+
+	if (outfile) // check it's not null.  Null signals no individual line output
+	             // files
+	{
+		if (!outfile->is_open()) {
+			LOGERR << "Unable to write file Body" << number << ".out" << endl;
+			throw moordyn::output_file_error("Invalid line file");
+		}
+		// ------------- write channel names line --------------------
+
+		// output time
+		*outfile << "Time"
+		         << "\t ";
+
+		*outfile << "x\ty\tz\troll\tpitch\tyaw";
+
+		*outfile << "\n";
+
+		// ----------- write units line ---------------
+
+		if (env->WriteUnits > 0) {
+			// output time
+			*outfile << "(s)"
+			         << "\t ";
+
+			*outfile << "(m)\t(m)\t(m)\t(deg)\t(deg)\t(deg)";
+
+			*outfile << "\n"; // should also write units at some point!
+		}
+	}
+}
+
 void
 Body::initializeUnfreeBody(vec6 r6_in, vec6 v6_in, vec6 a6_in)
 {
@@ -195,6 +232,10 @@ Body::initializeUnfreeBody(vec6 r6_in, vec6 v6_in, vec6 a6_in)
 	// initialized otherwise
 	for (auto attached : attachedP)
 		attached->initialize();
+
+	// The coupled pinned bodies are afterwards initialized as the free ones
+	if (type != CPLDPIN)
+		openoutput();
 }
 
 std::pair<XYZQuat, vec6>
@@ -225,38 +266,7 @@ Body::initialize()
 			attached->initialize();
 	}
 
-	// create output file for writing output (and write channel header and units
-	// lines) if applicable
-
-	if (outfile) // check it's not null.  Null signals no individual line output
-	             // files
-	{
-		if (!outfile->is_open()) {
-			LOGERR << "Unable to write file Body" << number << ".out" << endl;
-			throw moordyn::output_file_error("Invalid line file");
-		}
-		// ------------- write channel names line --------------------
-
-		// output time
-		*outfile << "Time"
-		         << "\t ";
-
-		*outfile << "x\ty\tz\troll\tpitch\tyaw";
-
-		*outfile << "\n";
-
-		// ----------- write units line ---------------
-
-		if (env->WriteUnits > 0) {
-			// output time
-			*outfile << "(s)"
-			         << "\t ";
-
-			*outfile << "(m)\t(m)\t(m)\t(deg)\t(deg)\t(deg)";
-
-			*outfile << "\n"; // should also write units at some point!
-		}
-	}
+	openoutput();
 
 	LOGDBG << "Initialized Body " << number << endl;
 
diff --git a/source/Body.hpp b/source/Body.hpp
index 96908a2..cddd3f1 100644
--- a/source/Body.hpp
+++ b/source/Body.hpp
@@ -238,6 +238,11 @@ class Body final : public io::IO, public SuperCFL
 	 */
 	void addRod(Rod* rod, vec6 coords);
 
+	/** @brief Write the header of the output file, if any
+	 * @throw moordyn::output_file_error If the output file cannot be written
+	 */
+	void openoutput();
+
 	/** @brief Initialize the body that aren't free i.e. don't have states
 	 *
 	 * Those are the bodies with types moordyn::Body::COUPLED and
-- 
2.43.0


From 0a364370c57ce1ccc132ea9569aa427068c3e3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:46 +0000
Subject: [PATCH 35/82] fix: rod inclinations are available at the initial
 instant

The channels were written from uninitialised memory until the loads were first evaluated.
---
 source/Rod.cpp | 15 ++++++---------
 source/Rod.hpp |  5 -----
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/source/Rod.cpp b/source/Rod.cpp
index 86969a7..60631ff 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -370,10 +370,12 @@ Rod::GetRodOutput(OutChanProps outChan)
 			return r7.pos.y();
 		else if (outChan.QType == PosZ)
 			return r7.pos.z();
-		else if (outChan.QType == RX)
-			return roll * 180.0 / pi;
-		else if (outChan.QType == RY)
-			return pitch * 180.0 / pi;
+		else if ((outChan.QType == RX) || (outChan.QType == RY)) {
+			const auto angles = N ? orientationAngles(q) : make_pair(0.0, 0.0);
+			const real phi = angles.first * 180.0 / pi;
+			const real beta = angles.second;
+			return (outChan.QType == RX) ? -phi * sin(beta) : phi * cos(beta);
+		}
 		else if (outChan.QType == VelX)
 			return v6[0];
 		else if (outChan.QType == VelY)
@@ -900,11 +902,6 @@ Rod::doRHS()
 	const real sinBeta = sin(beta);
 	const real cosBeta = cos(beta);
 
-	// save to internal roll and pitch variables for use in output <<< should
-	// check these, make Euler angles instead of independent <<<
-	roll = -phi * sinBeta;
-	pitch = phi * cosBeta;
-
 	// set interior node positions and velocities (stretch the nodes between the
 	// endpoints linearly) (skipped for zero-length Rods)
 	for (unsigned int i = 1; i < N; i++) {
diff --git a/source/Rod.hpp b/source/Rod.hpp
index 5b77e22..6c3ea25 100644
--- a/source/Rod.hpp
+++ b/source/Rod.hpp
@@ -279,11 +279,6 @@ class Rod final : public io::IO, public SuperCFL
 	/// Rod type
 	types type;
 
-	/// The roll angle (useful for output)
-	real roll;
-	/// The pitch angle (useful for output)
-	real pitch;
-
 	/** @brief Setup a rod
 	 * @param number Rod ID
 	 * @param type Rod type
-- 
2.43.0


From 510d30b8a0ee2cf29a6bfcae582ade7a1773a3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:32 +0000
Subject: [PATCH 36/82] fix: the standard exceptions become error codes

The interface functions just caught MoorDyn's own exceptions. A value that is not a number in the input files (std::invalid_argument), or not enough memory (std::bad_alloc), terminated the program.
---
 source/Misc.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/Misc.hpp b/source/Misc.hpp
index f2258aa..c28bee1 100644
--- a/source/Misc.hpp
+++ b/source/Misc.hpp
@@ -607,6 +607,16 @@ MAKE_EXCEPTION(unhandled_error)
 		msg = e.what();                                                        \
 	}                                                                          \
 	catch (moordyn::unhandled_error const& e)                                  \
+	{                                                                          \
+		err = MOORDYN_UNHANDLED_ERROR;                                         \
+		msg = e.what();                                                        \
+	}                                                                          \
+	catch (std::bad_alloc const& e)                                            \
+	{                                                                          \
+		err = MOORDYN_MEM_ERROR;                                               \
+		msg = e.what();                                                        \
+	}                                                                          \
+	catch (std::exception const& e)                                            \
 	{                                                                          \
 		err = MOORDYN_UNHANDLED_ERROR;                                         \
 		msg = e.what();                                                        \
-- 
2.43.0


From f19dab90ac9f0591a9a85fa78c995c1d8b2bed57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:32 +0000
Subject: [PATCH 37/82] fix: a section at the end of the input file is not read
 beyond the end

The section loops looked for the next section before checking that there were lines left, reading past the last one when the input file has not got a final separator.
---
 source/MoorDyn2.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index fd501e3..24f535f 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -860,7 +860,7 @@ moordyn::MoorDyn::ReadInFile()
 	if ((i = findStartOfSection(in_txt, { "OPTIONS" })) != -1) {
 		LOGDBG << "   Reading options:" << endl;
 		// Parse options until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 			if (entries.size() < 2) {
 				i++;
@@ -883,7 +883,7 @@ moordyn::MoorDyn::ReadInFile()
 	if ((i = findStartOfSection(in_txt, { "OPTIONS" })) != -1) {
 		LOGDBG << "   Reading options:" << endl;
 		// Parse options until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 			if (entries.size() < 2) {
 				i++;
@@ -927,7 +927,7 @@ moordyn::MoorDyn::ReadInFile()
 		LOGDBG << "   Reading line types:" << endl;
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			LineProps* obj = readLineProps(in_txt[i]);
 			if (obj)
 				LinePropList.push_back(obj);
@@ -944,7 +944,7 @@ moordyn::MoorDyn::ReadInFile()
 		LOGDBG << "   Reading rod types:" << endl;
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			RodProps* obj = readRodProps(in_txt[i]);
 
 			if (obj)
@@ -962,7 +962,7 @@ moordyn::MoorDyn::ReadInFile()
 		LOGDBG << "   Reading body list:" << endl;
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			Body* obj = readBody(in_txt[i]);
 
 			if (obj) {
@@ -984,7 +984,7 @@ moordyn::MoorDyn::ReadInFile()
 		LOGDBG << "   Reading point list:" << endl;
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 			if (entries.size() < 9) {
 				LOGERR << "Error in " << _filepath << ":" << i + 1 << "..."
@@ -1105,7 +1105,7 @@ moordyn::MoorDyn::ReadInFile()
 		LOGDBG << "   Reading rod list:" << endl;
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			Rod* obj = readRod(in_txt[i]);
 			RodList.push_back(obj);
 
@@ -1123,7 +1123,7 @@ moordyn::MoorDyn::ReadInFile()
 		}
 
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 			if (entries.size() < 7) {
 				LOGERR << "Error in " << _filepath << ":" << i + 1 << "..."
@@ -1250,7 +1250,7 @@ moordyn::MoorDyn::ReadInFile()
 	if ((i = findStartOfSection(in_txt, { "FAILURE" })) != -1) {
 		LOGDBG << "   Reading failure conditions:" << endl;
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 			if (entries.size() < 4) {
 				LOGERR << "Error in " << _filepath << ":" << i + 1 << "..."
@@ -1350,7 +1350,7 @@ moordyn::MoorDyn::ReadInFile()
 	if ((i = findStartOfSection(in_txt, { "OUTPUT" })) != -1) {
 		LOGDBG << "   Reading output options:" << endl;
 		// parse until the next header or the end of the file
-		while ((in_txt[i].find("---") == string::npos) && (i < (int)in_txt.size())) {
+		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
 
 			for (unsigned int j = 0; j < entries.size();
-- 
2.43.0


From fab8f2dd490daf9ca70a3bec1d106aa59f18cfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:32 +0000
Subject: [PATCH 38/82] fix: an invalid rod is refused

The null pointer returned by readRod for an invalid rod was stored and dereferenced later.
---
 source/MoorDyn2.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 24f535f..3565217 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -1107,6 +1107,9 @@ moordyn::MoorDyn::ReadInFile()
 		// parse until the next header or the end of the file
 		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			Rod* obj = readRod(in_txt[i]);
+
+			if (!obj)
+				return MOORDYN_INVALID_INPUT;
 			RodList.push_back(obj);
 
 			i++;
-- 
2.43.0


From 035a602eed766211e14d954ff5f258ac3ec132c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:32 +0000
Subject: [PATCH 39/82] fix: a system that cannot be created is released

The destructor is not called when the constructor throws, so the objects read so far, and their files, were left behind.
---
 source/MoorDyn2.cpp | 20 +++++++++++++++++---
 source/MoorDyn2.hpp |  4 ++++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 3565217..3e4ad5c 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -139,11 +139,19 @@ moordyn::MoorDyn::MoorDyn(const char* infilename, int log_level)
 
 	waves = std::make_shared<moordyn::Waves>(_log);
 
-	const moordyn::error_id err = ReadInFile();
+	moordyn::error_id err = MOORDYN_SUCCESS;
+	string err_msg;
+	try {
+		err = ReadInFile();
+		if (err != MOORDYN_SUCCESS)
+			err_msg = "Exception while reading the input file";
+	}
+	MOORDYN_CATCHER(err, err_msg);
 	if (err != MOORDYN_SUCCESS) {
-		delete GetLogger();
+		// The destructor is not called if the constructor throws an exception
+		release();
 	}
-	MOORDYN_THROW(err, "Exception while reading the input file");
+	MOORDYN_THROW(err, err_msg.c_str());
 
 	LOGDBG << "MoorDyn is expecting " << NCoupledDOF()
 	       << " coupled degrees of freedom" << endl;
@@ -157,6 +165,12 @@ moordyn::MoorDyn::MoorDyn(const char* infilename, int log_level)
 }
 
 moordyn::MoorDyn::~MoorDyn()
+{
+	release();
+}
+
+void
+moordyn::MoorDyn::release()
 {
 	if (outfileMain.is_open())
 		outfileMain.close();
diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index 6bba310..be48fe4 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -412,6 +412,10 @@ class MoorDyn final : public io::IO
 	 */
 	moordyn::error_id ReadInFile();
 
+	/** @brief Close the files and free all the allocated objects
+	 */
+	void release();
+
 	/** @brief Read the input file and store it as a set of strings, one per
 	 * line
 	 * @param in_txt The output list of strings
-- 
2.43.0


From 529d3d3eec5417d94c71800d17314543e203f20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:32 +0000
Subject: [PATCH 40/82] fix: lines without segments and rods with negative
 segments are refused

Zero or negative numbers of segments became huge sizes.
---
 source/MoorDyn2.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 3e4ad5c..8a27125 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -1155,6 +1155,13 @@ moordyn::MoorDyn::ReadInFile()
 			string type = entries[1];
 			double UnstrLen = atof(entries[4].c_str());
 			int NumSegs = atoi(entries[5].c_str()); // addition vs. MAP
+			if (NumSegs < 1) {
+				LOGERR << "Error in " << _filepath << ":" << i + 1 << "..."
+				       << endl
+				       << "'" << in_txt[i] << "'" << endl
+				       << "A line needs at least 1 segment" << endl;
+				return MOORDYN_INVALID_INPUT;
+			}
 			string outchannels = entries[6];
 
 			int TypeNum = -1;
@@ -2013,6 +2020,10 @@ moordyn::MoorDyn::readRod(string inputText)
 	for (unsigned int I = 0; I < 6; I++)
 		endCoords[I] = atof(entries[3 + I].c_str());
 	int NumSegs = atoi(entries[9].c_str());
+	if (NumSegs < 0) {
+		LOGERR << "The number of segments of a rod cannot be negative" << endl;
+		return nullptr;
+	}
 	string outchannels = entries[10];
 
 	std::string let1, num1, let2, num2, let3;
-- 
2.43.0


From 3d55d4b1a77548b0e2f1e3f114e48a384a365929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:32 +0000
Subject: [PATCH 41/82] fix: the line properties with an invalid curve are
 released

readLineProps leaked the properties when a curve file was invalid.
---
 source/MoorDyn2.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 8a27125..80f2578 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -1797,22 +1797,28 @@ moordyn::MoorDyn::readLineProps(string inputText)
 	                 &(obj->nEApoints),
 	                 obj->stiffXs,
 	                 obj->stiffYs);
-	if (err)
+	if (err) {
+		delete obj;
 		return nullptr;
+	}
 	err = read_curve(entries[4].c_str(),
 	                 &(obj->c),
 	                 &(obj->nCpoints),
 	                 obj->dampXs,
 	                 obj->dampYs);
-	if (err)
+	if (err) {
+		delete obj;
 		return nullptr;
+	}
 	err = read_curve(entries[5].c_str(),
 	                 &(obj->EI),
 	                 &(obj->nEIpoints),
 	                 obj->bstiffXs,
 	                 obj->bstiffYs);
-	if (err)
+	if (err) {
+		delete obj;
 		return nullptr;
+	}
 
 	LOGDBG << "\t'" << obj->type << "'"
 	       << " - with id " << LinePropList.size() << endl
-- 
2.43.0


From 5d7c2184eedf89e7cc9838a463ed2196c7f6c499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:32 +0000
Subject: [PATCH 42/82] fix: a failure needs 5 fields

The fifth field was read although just 4 were required.
---
 source/MoorDyn2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 80f2578..baeeb43 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -1276,11 +1276,11 @@ moordyn::MoorDyn::ReadInFile()
 		// parse until the next header or the end of the file
 		while ((i < (int)in_txt.size()) && (in_txt[i].find("---") == string::npos)) {
 			vector<string> entries = moordyn::str::split(in_txt[i], ' ');
-			if (entries.size() < 4) {
+			if (entries.size() < 5) {
 				LOGERR << "Error in " << _filepath << ":" << i + 1 << "..."
 				       << endl
 				       << "'" << in_txt[i] << "'" << endl
-				       << "4 fields are required, but just " << entries.size()
+				       << "5 fields are required, but just " << entries.size()
 				       << " are provided" << endl;
 				return MOORDYN_INVALID_INPUT;
 			}
-- 
2.43.0


From 2581025e058fc005c676b057d9ab69bc1d4f83fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:32 +0000
Subject: [PATCH 43/82] fix: unknown waves and currents modes are refused

An unknown mode was stored in the enumeration, with just a warning, to do different things afterwards.
---
 source/MoorDyn2.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index baeeb43..8aa68ed 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -2214,18 +2214,24 @@ moordyn::MoorDyn::readOptionsLine(vector<string>& in_txt, int i)
 	else if ((name == "threshIC") || (name == "ICthresh"))
 		ICthresh = atof(entries[0].c_str());
 	else if (name == "WaveKin") {
-		WaveKinTemp = (waves::waves_settings)stoi(entries[0]);
-		if ((WaveKinTemp < waves::WAVES_NONE) ||
-		    (WaveKinTemp > waves::WAVES_SUM_COMPONENTS_NODE))
-			LOGWRN << "Unknown WaveKin option value " << WaveKinTemp << endl;
+		const int wave_mode = stoi(entries[0]);
+		if ((wave_mode < waves::WAVES_NONE) ||
+		    (wave_mode > waves::WAVES_SUM_COMPONENTS_NODE)) {
+			LOGERR << "Unknown WaveKin option value " << wave_mode << endl;
+			throw moordyn::invalid_value_error("Invalid WaveKin option value");
+		}
+		WaveKinTemp = (waves::waves_settings)wave_mode;
 	} else if (name == "dtWave")
 		env->waterKinOptions.dtWave = stof(entries[0]);
 	else if (name == "Currents") {
-		auto current_mode = (waves::currents_settings)stoi(entries[0]);
-		env->waterKinOptions.currentMode = current_mode;
+		const int current_mode = stoi(entries[0]);
 		if ((current_mode < waves::CURRENTS_NONE) ||
-		    (current_mode > waves::CURRENTS_4D))
-			LOGWRN << "Unknown Currents option value " << current_mode << endl;
+		    (current_mode > waves::CURRENTS_4D)) {
+			LOGERR << "Unknown Currents option value " << current_mode << endl;
+			throw moordyn::invalid_value_error("Invalid Currents option value");
+		}
+		env->waterKinOptions.currentMode =
+		    (waves::currents_settings)current_mode;
 	} else if (name == "UnifyCurrentGrid") {
 		if (entries[0] == "1") {
 			env->waterKinOptions.unifyCurrentGrid = true;
-- 
2.43.0


From a75795eeec78ee27c2a7125fe0924cca140b6d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:32 +0000
Subject: [PATCH 44/82] fix: incomplete waves and currents grids are refused

The fields of the grid and the 4D currents files were read without checking how many there are.
---
 source/Waves.cpp          |  5 ++--
 source/Waves/WaveGrid.cpp | 49 ++++++++++++++++++++++++++++++++-------
 2 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/source/Waves.cpp b/source/Waves.cpp
index 2310b28..cf79270 100644
--- a/source/Waves.cpp
+++ b/source/Waves.cpp
@@ -76,9 +76,10 @@ gridAxisCoords(Waves::coordtypes coordtype, vector<string>& entries)
 		n = 1;
 	else if (coordtype == Waves::GRID_LIST)
 		n = static_cast<unsigned int>(entries.size());
-	else if (coordtype == Waves::GRID_LATTICE)
+	else if ((coordtype == Waves::GRID_LATTICE) && (entries.size() >= 3))
 		n = static_cast<unsigned int>(stoul(entries[2]));
-	else
+
+	if (!n)
 		return coordarray;
 
 	// fill in coordinates
diff --git a/source/Waves/WaveGrid.cpp b/source/Waves/WaveGrid.cpp
index 522322c..0f8f028 100644
--- a/source/Waves/WaveGrid.cpp
+++ b/source/Waves/WaveGrid.cpp
@@ -273,6 +273,29 @@ fillWaveGrid(std::unique_ptr<WaveGrid> waveGrid,
 	return waveGrid;
 }
 
+/** @brief Split a line of an input file, which shall have enough fields
+ * @param line The line
+ * @param n The number of fields required
+ * @param filepath The file, to report the errors
+ * @param _log The logger
+ * @return The fields
+ * @throws moordyn::input_file_error If there are not enough fields
+ */
+static vector<string>
+splitFields(const string& line,
+            size_t n,
+            const string& filepath,
+            moordyn::Log* _log)
+{
+	vector<string> entries = moordyn::str::split(line);
+	if (entries.size() < n) {
+		LOGERR << "The line '" << line << "' of the file '" << filepath
+		       << "' should have at least " << n << " columns" << endl;
+		throw moordyn::input_file_error("Invalid file format");
+	}
+	return entries;
+}
+
 /** @brief Read the grid file and return the three axes
  *
  * The grid is defined in a tabulated file (separator=' '). That file has 3
@@ -312,7 +335,7 @@ rectilinearGridFromFile(std::filesystem::path filepath, moordyn::Log* _log)
 	vector<string> entries;
 	Waves::coordtypes coordtype;
 
-	entries = moordyn::str::split(lines[3]);
+	entries = splitFields(lines[3], 1, filepath.string(), _log);
 	coordtype = (Waves::coordtypes)stoi(entries[0]);
 	entries = moordyn::str::split(lines[4]);
 	auto px = gridAxisCoords(coordtype, entries);
@@ -322,7 +345,7 @@ rectilinearGridFromFile(std::filesystem::path filepath, moordyn::Log* _log)
 		throw moordyn::invalid_value_error("Invalid line");
 	}
 
-	entries = moordyn::str::split(lines[5]);
+	entries = splitFields(lines[5], 1, filepath.string(), _log);
 	coordtype = (Waves::coordtypes)stoi(entries[0]);
 	entries = moordyn::str::split(lines[6]);
 	auto py = gridAxisCoords(coordtype, entries);
@@ -332,7 +355,7 @@ rectilinearGridFromFile(std::filesystem::path filepath, moordyn::Log* _log)
 		throw moordyn::invalid_value_error("Invalid line");
 	}
 
-	entries = moordyn::str::split(lines[7]);
+	entries = splitFields(lines[7], 1, filepath.string(), _log);
 	coordtype = (Waves::coordtypes)stoi(entries[0]);
 	entries = moordyn::str::split(lines[8]);
 	auto pz = gridAxisCoords(coordtype, entries);
@@ -765,12 +788,19 @@ construct4DCurrentGrid(const std::string& folder,
 
 	// The first line must contain the number of x, y, z, t values in the
 	// input meshgrid (1-indexed, space delimited)
-	vector<string> gridDimensions = moordyn::str::split(lines[0]);
+	vector<string> gridDimensions =
+	    splitFields(lines[0], 4, CurrentsFilename, _log);
 	unsigned int nxCurGrid = stoul(gridDimensions[0]);
 	unsigned int nyCurGrid = stoul(gridDimensions[1]);
 	unsigned int nzCurGrid = stoul(gridDimensions[2]);
 	unsigned int ntCurGrid = stoul(gridDimensions[3]);
 
+	if (!nxCurGrid || !nyCurGrid || !nzCurGrid || !ntCurGrid) {
+		LOGERR << "The grid of the file '" << CurrentsFilename
+		       << "' should have at least 1 point in each direction" << endl;
+		throw moordyn::input_file_error("Invalid file format");
+	}
+
 	// Next four rows specify grid points x, y, t, z
 	vector<real> UProfileX;
 	vector<real> UProfileY;
@@ -785,25 +815,25 @@ construct4DCurrentGrid(const std::string& folder,
 	map<string, unsigned int> ZMap;
 	map<string, unsigned int> TMap;
 
-	auto entry = moordyn::str::split(lines[1]);
+	auto entry = splitFields(lines[1], nxCurGrid, CurrentsFilename, _log);
 	for (unsigned int i = 0; i < nxCurGrid; i++) {
 		UProfileX.push_back(stod(entry[i]));
 		XMap[entry[i]] = i;
 	}
 
-	entry = moordyn::str::split(lines[2]);
+	entry = splitFields(lines[2], nyCurGrid, CurrentsFilename, _log);
 	for (unsigned int i = 0; i < nyCurGrid; i++) {
 		UProfileY.push_back(stod(entry[i]));
 		YMap[entry[i]] = i;
 	}
 
-	entry = moordyn::str::split(lines[3]);
+	entry = splitFields(lines[3], nzCurGrid, CurrentsFilename, _log);
 	for (unsigned int i = 0; i < nzCurGrid; i++) {
 		UProfileZ.push_back(stod(entry[i]));
 		ZMap[entry[i]] = i;
 	}
 
-	entry = moordyn::str::split(lines[4]);
+	entry = splitFields(lines[4], ntCurGrid, CurrentsFilename, _log);
 	for (unsigned int i = 0; i < ntCurGrid; i++) {
 		UProfileT.push_back(stod(entry[i]));
 		TMap[entry[i]] = i;
@@ -829,7 +859,8 @@ construct4DCurrentGrid(const std::string& folder,
 
 	// Read values into 4D array
 	for (int i = 5; i < (int)lines.size(); i++) {
-		vector<string> entry = moordyn::str::split(lines[i]);
+		vector<string> entry =
+		    splitFields(lines[i], 7, CurrentsFilename, _log);
 
 		// Need to get indices (don't match coord values)
 		auto ix = XMap[entry[0]];
-- 
2.43.0


From f457a117745a8f6452361b9e5509fdb7dc778726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:32 +0000
Subject: [PATCH 45/82] fix: invalid times in the waves and currents files are
 refused

Empty, not ascending or huge times resulted in invalid sizes and reads out of range.
---
 source/Waves/WaveGrid.cpp | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/source/Waves/WaveGrid.cpp b/source/Waves/WaveGrid.cpp
index 0f8f028..47904b6 100644
--- a/source/Waves/WaveGrid.cpp
+++ b/source/Waves/WaveGrid.cpp
@@ -373,6 +373,30 @@ rectilinearGridFromFile(std::filesystem::path filepath, moordyn::Log* _log)
 	return { px, py, pz };
 }
 
+/** @brief Get the number of samples of a time series
+ * @param times The times
+ * @param dt The time between samples
+ * @param filepath The file, to report the errors
+ * @param _log The logger
+ * @return The number of samples
+ * @throws moordyn::invalid_value_error If the times are not valid
+ */
+static unsigned int
+timeSamples(const std::vector<real>& times,
+            real dt,
+            const string& filepath,
+            moordyn::Log* _log)
+{
+	const real n = times.empty() ? -1.0 : floor(times.back() / dt) + 1.0;
+	if (!(dt > 0.0) || !(n >= 1.0) ||
+	    !(n < std::numeric_limits<int>::max())) {
+		LOGERR << "The file '" << filepath
+		       << "' should have ascending times" << endl;
+		throw moordyn::invalid_value_error("Invalid times");
+	}
+	return static_cast<unsigned int>(n);
+}
+
 std::unique_ptr<WaveGrid>
 constructWaveGridSpectrumData(const std::string& folder,
                               const EnvCondRef env,
@@ -475,7 +499,7 @@ constructWaveGridElevationData(const std::string& folder,
 	// this makes the implicit assumption that dtWave >= interval between
 	// samples the 1 extra is for the point at zero, [0.0, 1.0, 2.0] is 3
 	// points even though 2.0/1.0 = 2
-	unsigned int nt = floor(wavetimes.back() / dtWave) + 1;
+	unsigned int nt = timeSamples(wavetimes, dtWave, WaveFilename, _log);
 	LOGDBG << "Number of wave time samples = " << nt << "(" << wavetimes.size()
 	       << " samples provided in the file)" << endl;
 
@@ -490,6 +514,12 @@ constructWaveGridElevationData(const std::string& folder,
 	// ensure N is even
 	// this is a requirement of kiss_fft
 	if (nt % 2 != 0) {
+		if (nt < 2) {
+			LOGERR << "The file '" << WaveFilename
+			       << "' is shorter than the time step, " << dtWave << " s"
+			       << endl;
+			throw moordyn::invalid_value_error("Invalid times");
+		}
 		nt = nt - 1;
 		waveTime.pop_back();
 		waveElev.pop_back();
@@ -728,7 +758,7 @@ constructDynamicCurrentGrid(const std::string& folder,
 	for (unsigned int i = 1; i < ntin; i++)
 		if (UProfileT[i] - UProfileT[i - 1] < dtWave)
 			dtWave = UProfileT[i] - UProfileT[i - 1];
-	unsigned int nt = floor(UProfileT[ntin - 1] / dtWave) + 1;
+	unsigned int nt = timeSamples(UProfileT, dtWave, CurrentsFilename, _log);
 
 	auto currentGrid =
 	    make_unique<CurrentGrid>(_log, px, py, UProfileZ, nt, dtWave);
@@ -883,7 +913,7 @@ construct4DCurrentGrid(const std::string& folder,
 			dtWave = UProfileT[i] - UProfileT[i - 1];
 
 	// set number of timesteps
-	unsigned int nt = floor(UProfileT[ntCurGrid - 1] / dtWave) + 1;
+	unsigned int nt = timeSamples(UProfileT, dtWave, CurrentsFilename, _log);
 
 	auto currentGrid = make_unique<CurrentGrid>(
 	    _log, UProfileX, UProfileY, UProfileZ, nt, dtWave);
-- 
2.43.0


From c86f4f9419b42c8d7bd881d41ab906b51cd0c519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:32 +0000
Subject: [PATCH 46/82] fix: interpolating at a value that is not a number is
 not fatal

The assertion is reached when a number of the waves and currents files is nan.
---
 source/Util/Interp.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/Util/Interp.hpp b/source/Util/Interp.hpp
index 2df9f92..d9c1310 100644
--- a/source/Util/Interp.hpp
+++ b/source/Util/Interp.hpp
@@ -44,8 +44,7 @@ interp_factor(const std::vector<T>& xp, unsigned int i0, const T& x, T& f)
 		}
 	}
 
-	// Just to avoid the compiler warnings. This point is actually never reached
-	assert(false);
+	// This point is just reached when x is not a number
 	f = 1.0;
 	return static_cast<unsigned int>(xp.size() - 1);
 }
-- 
2.43.0


From de0c25e736c7dfeb99e87656e4852cc261d202ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:32 +0000
Subject: [PATCH 47/82] fix: the number of ticks of the bathymetry is checked

The second number of the first line was read without checking that it exists.
---
 source/Seafloor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/Seafloor.cpp b/source/Seafloor.cpp
index 3422a3f..e8d7e3a 100644
--- a/source/Seafloor.cpp
+++ b/source/Seafloor.cpp
@@ -68,6 +68,11 @@ Seafloor::setup(EnvCondRef env, const string& filepath)
 
 		// Setup nx, ny
 		vector<string> entries = moordyn::str::split(fLines[0]);
+		if (entries.size() < 2) {
+			LOGERR << "There should be 2 entries in line 1"
+			       << " of the input file.\n";
+			throw moordyn::input_file_error("Invalid no. of ticks");
+		}
 		nx = stoi(entries[0]);
 		ny = stoi(entries[1]);
 
-- 
2.43.0


From 03adbe4d3634baea68fb6ca41f8b5e7e134301e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:32 +0000
Subject: [PATCH 48/82] fix: time steps that are not positive are refused

With a null dtM (or a massless line, that has a null critical time step) or a null dtIC the loops never ended.
---
 source/MoorDyn2.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 8aa68ed..a247541 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -537,6 +537,16 @@ moordyn::MoorDyn::Init(const double* x, const double* xd, bool skip_ic)
 	for (auto obj : BodyList)
 		cfl = (std::max)(cfl, obj->dt2cfl(dtM0));
 	LOGMSG << "dtM = " << dtM0 << " s (CFL = " << cfl << ")" << endl;
+	// Otherwise the time would never advance
+	if (!(dtM0 > 0.0)) {
+		LOGERR << "The time step dtM = " << dtM0 << " s is not positive" << endl;
+		return MOORDYN_INVALID_VALUE;
+	}
+	if (!skip_ic && (ICTmax > 0.0) && !(ICdt > 0.0)) {
+		LOGERR << "The time step dtIC = " << ICdt << " s is not positive"
+		       << endl;
+		return MOORDYN_INVALID_VALUE;
+	}
 
 	// Initialize the system state
 	_t_integrator->SetCFL(cfl);
-- 
2.43.0


From 17a8995a9ad6730250166679805c172c97f581d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:32 +0000
Subject: [PATCH 49/82] fix: lines and rods that cannot be set up are released

When the setup failed the object was left behind.
---
 source/MoorDyn2.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index a247541..8cea0da 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -1208,6 +1208,7 @@ moordyn::MoorDyn::ReadInFile()
 			       << " with id " << LineList.size() << endl;
 
 			Line* obj = new Line(_log, LineList.size());
+			LineList.push_back(obj);
 			obj->setup(number,
 			           LinePropList[TypeNum],
 			           UnstrLen,
@@ -1215,7 +1216,6 @@ moordyn::MoorDyn::ReadInFile()
 			           env,
 			           outfiles.back(),
 			           outchannels);
-			LineList.push_back(obj);
 			LineStateIs.push_back(
 			    nX);                 // assign start index of this Line's states
 			nX += 6 * (NumSegs - 1); // add 6 state variables for each
@@ -2145,7 +2145,8 @@ moordyn::MoorDyn::readRod(string inputText)
 	       << " and type " << Rod::TypeName(type) << " with id "
 	       << RodList.size() << endl;
 
-	Rod* obj = new Rod(_log, RodList.size());
+	auto rod = std::make_unique<Rod>(_log, RodList.size());
+	Rod* obj = rod.get();
 	obj->setup(number,
 	           type,
 	           RodPropList[TypeNum],
@@ -2167,7 +2168,7 @@ moordyn::MoorDyn::readRod(string inputText)
 	}
 	LOGDBG << endl;
 
-	return obj;
+	return rod.release();
 }
 
 void
-- 
2.43.0


From 893f69ec413f91feaa346f775f6ebe585e125cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:32 +0000
Subject: [PATCH 50/82] fix: the time scheme can be given twice

The first time scheme was left behind when the option was repeated.
---
 source/MoorDyn2.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 8cea0da..06b8cc6 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -2199,7 +2199,9 @@ moordyn::MoorDyn::readOptionsLine(vector<string>& in_txt, int i)
 		moordyn::error_id err = MOORDYN_SUCCESS;
 		string err_msg;
 		try {
-			_t_integrator = create_time_scheme(entries[0], _log, waves);
+			TimeScheme* scheme = create_time_scheme(entries[0], _log, waves);
+			delete _t_integrator;
+			_t_integrator = scheme;
 		}
 		MOORDYN_CATCHER(err, err_msg);
 		if (err != MOORDYN_SUCCESS) {
-- 
2.43.0


From 6652b3a7e5adf048f3d8aee4a2cdacadc934d52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:11 +0000
Subject: [PATCH 51/82] fix: dtM and CFL together use the smallest time step

The documentation says that the minimum is used, but CFL was ignored when dtM was also given
---
 source/MoorDyn2.cpp | 8 +++++---
 source/MoorDyn2.hpp | 3 +++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index 06b8cc6..f72a9ba 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -88,6 +88,7 @@ moordyn::MoorDyn::MoorDyn(const char* infilename, int log_level)
   , WaveKinTemp(waves::WAVES_NONE)
   , dtM0((std::numeric_limits<real>::max)())
   , cfl(0.5)
+  , cfl_given(false)
   , dtOut(0.0)
   , _t_integrator(NULL)
   , ICgenDynamic(false)
@@ -514,7 +515,7 @@ moordyn::MoorDyn::Init(const double* x, const double* xd, bool skip_ic)
 		ix += 3;
 	}
 
-	if (dtM0 < (0.9 * (std::numeric_limits<real>::max)()))
+	if (!cfl_given && dtM0 < (0.9 * (std::numeric_limits<real>::max)()))
 		cfl = (std::numeric_limits<real>::max)(); // Is 90% of max sufficient tolerance for this check?
 
 	// Compute the timestep
@@ -2188,9 +2189,10 @@ moordyn::MoorDyn::readOptionsLine(vector<string>& in_txt, int i)
 	// DT is old way, should phase out
 	if ((name == "dtM") || (name == "DT"))
 		dtM0 = atof(entries[0].c_str());
-	else if ((name == "CFL") || (name == "cfl"))
+	else if ((name == "CFL") || (name == "cfl")) {
 		cfl = atof(entries[0].c_str());
-	else if (name == "writeLog") {
+		cfl_given = true;
+	} else if (name == "writeLog") {
 		// This was actually already did, so we do not need to do that again
 		// But we really want to have this if to avoid showing a warning for
 		// Unrecognized option writeLog
diff --git a/source/MoorDyn2.hpp b/source/MoorDyn2.hpp
index be48fe4..eb9ed61 100644
--- a/source/MoorDyn2.hpp
+++ b/source/MoorDyn2.hpp
@@ -333,6 +333,7 @@ class MoorDyn final : public io::IO
 	inline void SetDt(real dt) {
 		this->dtM0 = dt;
 		this->cfl = 0.0;
+		this->cfl_given = false;
 		for (auto obj : LineList)
 			cfl = (std::max)(cfl, obj->dt2cfl(dtM0));
 		for (auto obj : PointList)
@@ -579,6 +580,8 @@ class MoorDyn final : public io::IO
 	real dtM0;
 	/// desired mooring line model maximum CFL factor
 	real cfl;
+	/// Whether the CFL factor has been set in the input file
+	bool cfl_given;
 	/// (s) desired output interval (the default zero value provides output at
 	/// every call to MoorDyn)
 	real dtOut;
-- 
2.43.0


From b9368baafd7f6e0fc60ac0202d0611fdd0cc382b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:11 +0000
Subject: [PATCH 52/82] fix: GetFairTen() reports invalid lines

The returned value was not initialized if the line does not exist
---
 source/MoorDyn.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/MoorDyn.cpp b/source/MoorDyn.cpp
index 42e2a21..4d0a1ad 100644
--- a/source/MoorDyn.cpp
+++ b/source/MoorDyn.cpp
@@ -238,7 +238,8 @@ GetFairTen(int l)
 		return -1;
 	double t;
 	auto line = MoorDyn_GetLine(md_singleton, l);
-	MoorDyn_GetLineFairTen(line, &t);
+	if (MoorDyn_GetLineFairTen(line, &t) != MOORDYN_SUCCESS)
+		return -1;
 	return t;
 }
 
-- 
2.43.0


From cf79ff51d413067ecf193c53abd205cfe64ad438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:11 +0000
Subject: [PATCH 53/82] fix: MoorDynInit() releases the system that cannot be
 initialized

---
 source/MoorDyn.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/MoorDyn.cpp b/source/MoorDyn.cpp
index 4d0a1ad..92bde20 100644
--- a/source/MoorDyn.cpp
+++ b/source/MoorDyn.cpp
@@ -148,8 +148,10 @@ MoorDynInit(const double x[], const double xd[], const char* infilename)
 		return MOORDYN_UNHANDLED_ERROR;
 
 	int err = MoorDyn_Init(instance, x, xd);
-	if (err)
+	if (err) {
+		MoorDyn_Close(instance);
 		return err;
+	}
 
 	if (md_singleton)
 		MoorDyn_Close(md_singleton); // We do not care if this fails
-- 
2.43.0


From 742f85eb8106006688aa0d3763c340fd9ccabe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:11 +0000
Subject: [PATCH 54/82] fix: an unusable log file does not close the current
 one

---
 source/Log.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/Log.cpp b/source/Log.cpp
index c6c4747..eb56c93 100644
--- a/source/Log.cpp
+++ b/source/Log.cpp
@@ -91,11 +91,13 @@ MultiStream::~MultiStream()
 void
 MultiStream::SetFile(const char* file_path)
 {
+	// Keep the current file, if any, until the new one is available
 	if (_fout.is_open())
-		_fout.close();
-	_fout.open(file_path);
-	if (!_fout.is_open())
+		_fout.flush();
+	std::ofstream fout(file_path);
+	if (!fout.is_open())
 		throw moordyn::output_file_error("Invalid file");
+	_fout = std::move(fout);
 	_fpath = file_path;
 }
 
-- 
2.43.0


From 7ec50749f005a7f0b0ebedebd48bbd144256d4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:11 +0000
Subject: [PATCH 55/82] fix: the time is not printed when just warnings or
 errors are asked for

MOORDYN_NO_OUTPUT is documented as no info being reported
---
 source/MoorDyn2.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index f72a9ba..f4da24f 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -641,7 +641,8 @@ moordyn::MoorDyn::Step(const double* x,
 	t_str << std::fixed << setprecision(1) << t;
 	LOGDBG << "t = " << t_str.str() << "s     \r";
 
-	cout << "\rt = " << t << " " << flush;
+	if (_log->GetVerbosity() <= MOORDYN_MSG_LEVEL)
+		cout << "\rt = " << t << " " << flush;
 
 	if (dt <= 0) {
 		// Nothing to do, just recover the forces if there are coupled DOFs
-- 
2.43.0


From 7f4ebd6a7524bcd56961bacdabcf79f543630bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:59 +0000
Subject: [PATCH 56/82] fix: the static initial conditions rotate rods and
 bodies properly

The rotations were added to the orientation quaternion as if they were Euler angles converted to a quaternion, which drove the orientation towards the identity.
---
 source/State.cpp | 21 +++++++++++++++++----
 source/State.hpp |  3 ++-
 source/Time.cpp  |  4 ++--
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/source/State.cpp b/source/State.cpp
index ea42afb..388542b 100644
--- a/source/State.cpp
+++ b/source/State.cpp
@@ -422,7 +422,12 @@ template<>
 real StateVarDeriv<XYZQuat, vec6>::MakeStationary(const real &dt)
 {
 	real ret = acc.head<3>().norm();
-	vel = XYZQuat::fromVec6(0.5 * dt * acc);
+	vel.pos = 0.5 * dt * acc.head<3>();
+	// The rate of rotation, to be applied on the actual orientation afterwards
+	vel.quat = quaternion(0.0,
+	                      0.5 * dt * acc[3],
+	                      0.5 * dt * acc[4],
+	                      0.5 * dt * acc[5]);
 	acc = vec6::Zero();
 	return ret;
 }
@@ -840,17 +845,25 @@ DMoorDynStateDt::operator-(const DMoorDynStateDt& rhs)
 }
 
 real
-DMoorDynStateDt::MakeStationary(const real &dt)
+DMoorDynStateDt::MakeStationary(const real &dt, const MoorDynState& r)
 {
+	// Quaternion rate for the orientation q and the rate of rotation w
+	auto quat_rate = [](const quaternion& w, const quaternion& q) {
+		return quaternion(0.5 * (w * q).coeffs());
+	};
 	real ret = 0.0;
 	for (unsigned int i = 0; i < lines.size(); i++)
 		ret += lines[i].MakeStationary(dt);
 	for (unsigned int i = 0; i < points.size(); i++)
 		ret += points[i].MakeStationary(dt);
-	for (unsigned int i = 0; i < rods.size(); i++)
+	for (unsigned int i = 0; i < rods.size(); i++) {
 		ret += rods[i].MakeStationary(dt);
-	for (unsigned int i = 0; i < bodies.size(); i++)
+		rods[i].vel.quat = quat_rate(rods[i].vel.quat, r.rods[i].pos.quat);
+	}
+	for (unsigned int i = 0; i < bodies.size(); i++) {
 		ret += bodies[i].MakeStationary(dt);
+		bodies[i].vel.quat = quat_rate(bodies[i].vel.quat, r.bodies[i].pos.quat);
+	}
 	return ret;
 }
 
diff --git a/source/State.hpp b/source/State.hpp
index 0bbdf95..a50c7c2 100644
--- a/source/State.hpp
+++ b/source/State.hpp
@@ -374,9 +374,10 @@ class DMoorDynStateDt
 	 *
 	 * This can be use therefore to look for stationary solutions
 	 * @param dt Time step.
+	 * @param r The state, to know the orientation of the rods and bodies.
 	 * @return The sum of the linear acceleration norms
 	 */
-	real MakeStationary(const real &dt);
+	real MakeStationary(const real &dt, const MoorDynState& r);
 
 	/** @brief Carry out a Newmark step
 	 *
diff --git a/source/Time.cpp b/source/Time.cpp
index feee8ba..572e4a9 100644
--- a/source/Time.cpp
+++ b/source/Time.cpp
@@ -179,7 +179,7 @@ StationaryScheme::Step(real& dt)
 	Update(0.0, 0);
 	CalcStateDeriv(0);
 	const real error_prev = _error;
-	_error = rd[0].MakeStationary(dt);
+	_error = rd[0].MakeStationary(dt, r[0]);
 	if (error_prev != 0.0) {
 		if (error_prev >= _error) {
 			// Let's try to boost the convergence
@@ -192,7 +192,7 @@ StationaryScheme::Step(real& dt)
 			r[0].Mix(r[1], STATIONARY_RELAX);
 			Update(0.0, 0);
 			CalcStateDeriv(0);
-			_error = rd[0].MakeStationary(dt);
+			_error = rd[0].MakeStationary(dt, r[0]);
 		}
 	}
 	if (_booster > STATIONARY_MAX_BOOSTING)
-- 
2.43.0


From 2edb59e58cc2f29d5f5743eb0b20de0a203c6fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:59 +0000
Subject: [PATCH 57/82] fix: the dynamic initial conditions converge over dtIC

The dtIC option was divided twice.
---
 source/MoorDyn2.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/source/MoorDyn2.cpp b/source/MoorDyn2.cpp
index f4da24f..396a9c8 100644
--- a/source/MoorDyn2.cpp
+++ b/source/MoorDyn2.cpp
@@ -237,7 +237,6 @@ moordyn::MoorDyn::icLegacy()
 	real best_score_t = 0.0;
 	unsigned int best_score_line = 0;
 
-	ICdt = ICdt / (convergence_iters+1);
 	while ((ICTmax - t) > (std::numeric_limits<real>::min)()) {
 		// Integrate one ICD timestep (ICdt)
 		real t_target = ICdt;
-- 
2.43.0


From dc8114b1b664e799195980df8f6bd11480810dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:59 +0000
Subject: [PATCH 58/82] fix: subtract the states of rods and bodies instead of
 adding them

---
 source/State.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/State.cpp b/source/State.cpp
index 388542b..118de24 100644
--- a/source/State.cpp
+++ b/source/State.cpp
@@ -115,8 +115,8 @@ StateVar<XYZQuat, vec6>
 StateVar<XYZQuat, vec6>::operator-(const StateVar<XYZQuat, vec6>& rhs)
 {
 	StateVar<XYZQuat, vec6> out;
-	out.pos = pos + rhs.pos;
-	out.vel = vel + rhs.vel;
+	out.pos = pos - rhs.pos;
+	out.vel = vel - rhs.vel;
 	return out;
 }
 
-- 
2.43.0


From a201c3b5f02e6f48412f0e9015fd2780f9a080c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:56 +0000
Subject: [PATCH 59/82] fix: the Newmark and Wilson schemes integrate the
 rotations properly

A nearly identity quaternion was added to the rate of change of the orientation, and the Wilson positions used the extended time step.
---
 source/State.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/source/State.cpp b/source/State.cpp
index 118de24..218c99c 100644
--- a/source/State.cpp
+++ b/source/State.cpp
@@ -481,7 +481,10 @@ StateVarDeriv<XYZQuat, vec6>::Newmark(
 	StateVarDeriv<XYZQuat, vec6> ret;
 	const vec6 acc_gamma = (1 - gamma) * acc + gamma * visitor.acc;
 	const vec6 acc_beta = (0.5 - beta) * acc + beta * visitor.acc;
-	ret.vel = vel + XYZQuat::fromVec6(dt * acc_beta);
+	ret.vel.pos = vel.pos + dt * acc_beta.head<3>();
+	// The rate of change of the quaternion is not an integrable acceleration
+	ret.vel.quat =
+	    0.5 * (vel.quat.coeffs() + visitor.vel.quat.coeffs());
 	ret.acc = acc_gamma;
 	return ret;
 }
@@ -512,7 +515,7 @@ StateVarDeriv<vec>::Wilson(
 	StateVarDeriv<vec> ret;
 	const real f = tau / dt;
 	ret.acc = (1 - 0.5 * f) * acc + 0.5 * f * visitor.acc;
-	ret.vel = vel + 0.5 * dt * (
+	ret.vel = vel + 0.5 * tau * (
 		(1 - 1.0 / 3.0 * f) * acc + 1.0 / 3.0 * f * visitor.acc);
 	return ret;
 }
@@ -525,7 +528,7 @@ StateVarDeriv<vec6>::Wilson(
 	StateVarDeriv<vec6> ret;
 	const real f = tau / dt;
 	ret.acc = (1 - 0.5 * f) * acc + 0.5 * f * visitor.acc;
-	ret.vel = vel + 0.5 * dt * (
+	ret.vel = vel + 0.5 * tau * (
 		(1 - 1.0 / 3.0 * f) * acc + 1.0 / 3.0 * f * visitor.acc);
 	return ret;
 }
@@ -540,8 +543,12 @@ StateVarDeriv<XYZQuat, vec6>::Wilson(
 	StateVarDeriv<XYZQuat, vec6> ret;
 	const real f = tau / dt;
 	ret.acc = (1 - 0.5 * f) * acc + 0.5 * f * visitor.acc;
-	ret.vel = vel + XYZQuat::fromVec6(0.5 * dt * (
-		(1 - 1.0 / 3.0 * f) * acc + 1.0 / 3.0 * f * visitor.acc));
+	const vec6 acc_pos =
+	    (1 - 1.0 / 3.0 * f) * acc + 1.0 / 3.0 * f * visitor.acc;
+	ret.vel.pos = vel.pos + 0.5 * tau * acc_pos.head<3>();
+	// The rate of change of the quaternion is not an integrable acceleration
+	ret.vel.quat = (1 - 0.5 * f) * vel.quat.coeffs() +
+	               0.5 * f * visitor.vel.quat.coeffs();
 	return ret;
 }
 
@@ -560,7 +567,7 @@ StateVarDeriv<std::vector<vec>>::Wilson(
 	const real f3 = 1.0 / 3.0 * f;
 	for (unsigned int i = 0; i < vel.size(); i++) {
 		ret.acc.push_back((1 - f2) * acc[i] + f2 * visitor.acc[i]);
-		ret.vel.push_back(vel[i] + 0.5 * dt * (
+		ret.vel.push_back(vel[i] + 0.5 * tau * (
 			(1 - f3) * acc[i] + f3 * visitor.acc[i]));
 	}
 	return ret;
-- 
2.43.0


From 5f8866f583b26599efbfb973804e980bc3cc38e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:56 +0000
Subject: [PATCH 60/82] fix: the Anderson scheme does not apply a relaxed
 derivative when it has converged

---
 source/Time.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/source/Time.cpp b/source/Time.cpp
index 572e4a9..006d98c 100644
--- a/source/Time.cpp
+++ b/source/Time.cpp
@@ -554,8 +554,14 @@ AndersonSchemeBase<NSTATE, NDERIV>::qr(unsigned int iter,
 	auto [res_mean, res_max] = residue();
 	const real relax = this->Relax(iter);
 
-	if (iter == 0) {
+	if (iter == 0)
 		_g0 = res_mean;
+
+	// The derivative to be applied cannot be relaxed
+	if (converged())
+		return;
+
+	if (iter == 0) {
 		// We cannot do anything else because we have not data enough. So let's
 		// just relax the point so we do not get too far away from the
 		// attractor
@@ -687,6 +693,7 @@ void
 AndersonEulerScheme::Step(real& dt)
 {
 	t += _dt_factor * dt;
+	rd[1] = rd[0];
 	for (unsigned int i = 0; i < iters(); i++) {
 		r[1] = r[0] + rd[0] * (_dt_factor * dt);
 		Update(_dt_factor * dt, 1);
@@ -695,10 +702,9 @@ AndersonEulerScheme::Step(real& dt)
 		if (i < iters() - 1) {
 			qr(i, 1, 0, _dt_factor * dt);
 			rd[1] = rd[0];
+			if (this->converged())
+				break;
 		}
-
-		if (this->converged())
-			break;
 	}
 
 	// Apply
-- 
2.43.0


From e356e634748a495b6ff66d243319e19fb8f06ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:26 +0000
Subject: [PATCH 61/82] fix: Python IsLinePressBend calls the module

It raised a NameError.
---
 wrappers/python/moordyn/moordyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/moordyn/moordyn.py b/wrappers/python/moordyn/moordyn.py
index 6363779..2ab158f 100644
--- a/wrappers/python/moordyn/moordyn.py
+++ b/wrappers/python/moordyn/moordyn.py
@@ -1146,7 +1146,7 @@ def IsLinePressBend(instance):
     b: True if the pressure bending of the line is enabled, False otherwise
     """
     import cmoordyn
-    return cmoordyn.line_is_pbend(b)
+    return cmoordyn.line_is_pbend(instance)
 
 
 def SetLinePressBend(instance, b):
-- 
2.43.0


From fad48a3d42b680465a3768f7ca42a931e24b3e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:26 +0000
Subject: [PATCH 62/82] fix: Python GetLineNodeSeabedForce returns the seabed
 force

It returned the Froude-Krylov force.
---
 wrappers/python/moordyn/moordyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/moordyn/moordyn.py b/wrappers/python/moordyn/moordyn.py
index 2ab158f..7128d5b 100644
--- a/wrappers/python/moordyn/moordyn.py
+++ b/wrappers/python/moordyn/moordyn.py
@@ -1309,7 +1309,7 @@ def GetLineNodeSeabedForce(instance, i):
     f: The node force (a 3 components tuple)
     """
     import cmoordyn
-    return cmoordyn.line_get_node_froudekrylov(instance, i)
+    return cmoordyn.line_get_node_seabed(instance, i)
 
 
 def GetLineNodeCurv(instance, i):
-- 
2.43.0


From b32ebe9ee6a2a8b6788aa05810e93d4fe527ccc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:26 +0000
Subject: [PATCH 63/82] fix: Python ExternalWaveKinGetN returns the number of
 points

It returned the error code of the initialisation.
---
 wrappers/python/moordyn/moordyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/moordyn/moordyn.py b/wrappers/python/moordyn/moordyn.py
index 7128d5b..7f764ed 100644
--- a/wrappers/python/moordyn/moordyn.py
+++ b/wrappers/python/moordyn/moordyn.py
@@ -303,7 +303,7 @@ def ExternalWaveKinGetN(instance):
     int: The number of points
     """
     import cmoordyn
-    return cmoordyn.ext_wave_init(instance)
+    return cmoordyn.ext_wave_n(instance)
 
 
 def GetWaveKinCoordinates(instance):
-- 
2.43.0


From e43693f37394854c528864fc8e7154c05b6f48f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:26 +0000
Subject: [PATCH 64/82] fix: Python UseBodyVTK calls the function that exists

---
 wrappers/python/moordyn/moordyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/moordyn/moordyn.py b/wrappers/python/moordyn/moordyn.py
index 7f764ed..c5bf121 100644
--- a/wrappers/python/moordyn/moordyn.py
+++ b/wrappers/python/moordyn/moordyn.py
@@ -793,7 +793,7 @@ def UseBodyVTK(instance, filename):
     int: 0 uppon success, an error code otherwise
     """
     import cmoordyn
-    return cmoordyn.use_save_vtk(instance, filename)
+    return cmoordyn.body_use_vtk(instance, filename)
 
 #                                  Rod.h
 #  =============================================================================
-- 
2.43.0


From c62729f8efe3aaa3da9c955bf27119a3b846a1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:26 +0000
Subject: [PATCH 65/82] fix: Python GetWavesKin can be called

It asked for a time the C API does not take, and read an uninitialised seafloor argument when it was omitted.
---
 wrappers/python/cmoordyn.cpp       | 2 +-
 wrappers/python/moordyn/moordyn.py | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/wrappers/python/cmoordyn.cpp b/wrappers/python/cmoordyn.cpp
index d1597aa..1fccfc8 100644
--- a/wrappers/python/cmoordyn.cpp
+++ b/wrappers/python/cmoordyn.cpp
@@ -1018,7 +1018,7 @@ waves_getkin(PyObject*, PyObject* args)
 {
 	PyObject* capsule;
 	double x, y, z;
-	PyObject* seafloor;
+	PyObject* seafloor = Py_None;
 
 	if (!PyArg_ParseTuple(args, "Oddd|O", &capsule, &x, &y, &z, &seafloor))
 		return NULL;
diff --git a/wrappers/python/moordyn/moordyn.py b/wrappers/python/moordyn/moordyn.py
index c5bf121..75e843e 100644
--- a/wrappers/python/moordyn/moordyn.py
+++ b/wrappers/python/moordyn/moordyn.py
@@ -576,7 +576,7 @@ def SaveVTK(instance, filename):
 #  =============================================================================
 
 
-def GetWavesKin(instance, x, y, z, t, seafloor=None):
+def GetWavesKin(instance, x, y, z, seafloor=None):
     """ Get the wave kinematics
 
     Parameters:
@@ -584,7 +584,6 @@ def GetWavesKin(instance, x, y, z, t, seafloor=None):
     x (float): The x coordinate
     y (float): The y coordinate
     z (float): The z coordinate
-    t (float): The simulation time
     seafloor (cmoordyn.MoorDynSeafloor): The 3D seafloor instance
 
     Returns:
@@ -594,7 +593,7 @@ def GetWavesKin(instance, x, y, z, t, seafloor=None):
     pdyn: The dynamic pressure
     """
     import cmoordyn
-    return cmoordyn.waves_getkin(instance, x, y, z, t, seafloor)
+    return cmoordyn.waves_getkin(instance, x, y, z, seafloor)
 
 
 #                                  Seafloor.h
-- 
2.43.0


From 03914f5d522fd123fbce3962ff5e5d0e01cc179e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:26 +0000
Subject: [PATCH 66/82] fix: Python Deserialize refuses data of a wrong type or
 size

A non-bytes argument ended in a SystemError and short data was read out of its bounds.
---
 wrappers/python/cmoordyn.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/wrappers/python/cmoordyn.cpp b/wrappers/python/cmoordyn.cpp
index 1fccfc8..43c24c2 100644
--- a/wrappers/python/cmoordyn.cpp
+++ b/wrappers/python/cmoordyn.cpp
@@ -914,16 +914,30 @@ deserialize(PyObject*, PyObject* args)
 {
 	PyObject *capsule, *bytes;
 
-	if (!PyArg_ParseTuple(args, "OO", &capsule, &bytes))
+	if (!PyArg_ParseTuple(args, "OS", &capsule, &bytes))
 		return NULL;
 
 	MoorDyn system =
 	    (MoorDyn)PyCapsule_GetPointer(capsule, moordyn_capsule_name);
-	if (!system || !PyBytes_Check(bytes))
+	if (!system)
 		return NULL;
 
+	// MoorDyn cannot know how many bytes are available, so check them here
+	size_t array_size;
+	int err = MoorDyn_Serialize(system, &array_size, NULL);
+	if (err != 0) {
+		PyErr_SetString(PyExc_RuntimeError, "MoorDyn reported an error");
+		return NULL;
+	}
+	if ((size_t)PyBytes_GET_SIZE(bytes) != array_size) {
+		std::stringstream msg;
+		msg << "2nd argument must have " << array_size << " bytes";
+		PyErr_SetString(PyExc_ValueError, msg.str().c_str());
+		return NULL;
+	}
+
 	char* array = PyBytes_AsString(bytes);
-	const int err = MoorDyn_Deserialize(system, (uint64_t*)array);
+	err = MoorDyn_Deserialize(system, (uint64_t*)array);
 	if (err != 0) {
 		PyErr_SetString(PyExc_RuntimeError, "MoorDyn reported an error");
 		return NULL;
-- 
2.43.0


From f6e7771e3d13ffd338c6ad87fe3211a8b4d7c6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:26 +0000
Subject: [PATCH 67/82] fix: the Python module returns None with a reference

---
 wrappers/python/cmoordyn.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/wrappers/python/cmoordyn.cpp b/wrappers/python/cmoordyn.cpp
index 43c24c2..1dcfd99 100644
--- a/wrappers/python/cmoordyn.cpp
+++ b/wrappers/python/cmoordyn.cpp
@@ -943,7 +943,7 @@ deserialize(PyObject*, PyObject* args)
 		return NULL;
 	}
 
-	return Py_None;
+	Py_RETURN_NONE;
 }
 
 /** @brief Wrapper to MoorDyn_Save() function
@@ -969,7 +969,7 @@ save(PyObject*, PyObject* args)
 		PyErr_SetString(PyExc_RuntimeError, "MoorDyn reported an error");
 		return NULL;
 	}
-	return Py_None;
+	Py_RETURN_NONE;
 }
 
 /** @brief Wrapper to MoorDyn_Load() function
@@ -995,7 +995,7 @@ load(PyObject*, PyObject* args)
 		PyErr_SetString(PyExc_RuntimeError, "MoorDyn reported an error");
 		return NULL;
 	}
-	return Py_None;
+	Py_RETURN_NONE;
 }
 
 /** @brief Wrapper to MoorDyn_SaveRodVTK() function
@@ -2101,7 +2101,7 @@ line_set_ulen(PyObject*, PyObject* args)
 		return NULL;
 	}
 
-	return Py_None;
+	Py_RETURN_NONE;
 }
 
 /** @brief Wrapper to MoorDyn_SetLineUnstretchedLength() function
@@ -2128,7 +2128,7 @@ line_set_ulenv(PyObject*, PyObject* args)
 		return NULL;
 	}
 
-	return Py_None;
+	Py_RETURN_NONE;
 }
 
 /** @brief Wrapper to MoorDyn_IsLineConstantEA() function
@@ -2209,7 +2209,7 @@ line_set_const_ea(PyObject*, PyObject* args)
 		return NULL;
 	}
 
-	return Py_None;
+	Py_RETURN_NONE;
 }
 
 /** @brief Wrapper to MoorDyn_IsLinePressBend() function
@@ -2263,7 +2263,7 @@ line_set_pbend(PyObject*, PyObject* args)
 		return NULL;
 	}
 
-	return Py_None;
+	Py_RETURN_NONE;
 }
 
 /** @brief Wrapper to MoorDyn_SetLinePressInt() function
@@ -2315,7 +2315,7 @@ line_set_pint(PyObject*, PyObject* args)
 		return NULL;
 	}
 
-	return Py_None;
+	Py_RETURN_NONE;
 }
 
 /** @brief Wrapper to MoorDyn_GetLineNodePos() function
-- 
2.43.0


From cac7854af92c9a722e566995f628e9bf2d0cbd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:26 +0000
Subject: [PATCH 68/82] fix: Python SetLinePressBend parses its flag as an int

The b format writes one byte of an uninitialised int.
---
 wrappers/python/cmoordyn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/cmoordyn.cpp b/wrappers/python/cmoordyn.cpp
index 1dcfd99..930679e 100644
--- a/wrappers/python/cmoordyn.cpp
+++ b/wrappers/python/cmoordyn.cpp
@@ -2249,7 +2249,7 @@ line_set_pbend(PyObject*, PyObject* args)
 	PyObject* capsule;
 	int b;
 
-	if (!PyArg_ParseTuple(args, "Ob", &capsule, &b))
+	if (!PyArg_ParseTuple(args, "Op", &capsule, &b))
 		return NULL;
 
 	MoorDynLine instance =
-- 
2.43.0


From 47225489f595c37e6a515f6fa35d1d6eed75771d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:26 +0000
Subject: [PATCH 69/82] fix: Fortran MD_SetVerbosity is bound to the C function

---
 wrappers/fortran/MoorDyn.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/fortran/MoorDyn.f90 b/wrappers/fortran/MoorDyn.f90
index 26ebdc6..cb5e947 100644
--- a/wrappers/fortran/MoorDyn.f90
+++ b/wrappers/fortran/MoorDyn.f90
@@ -93,10 +93,10 @@ module moordyn
       integer(c_int), intent(out) :: n
     end function MD_NCoupledDOF
 
-    integer(c_int) function MD_SetVerbosity(instance, n) bind(c, name='MD_SetVerbosity')
+    integer(c_int) function MD_SetVerbosity(instance, n) bind(c, name='MoorDyn_SetVerbosity')
       import :: c_ptr, c_int
       type(c_ptr), value, intent(in) :: instance
-      integer(c_int), intent(in) :: n
+      integer(c_int), value, intent(in) :: n
     end function MD_SetVerbosity
 
     function MoorDyn_SetLogFile(instance, f) bind(c, name='MoorDyn_SetLogFile') result(rc)
-- 
2.43.0


From 74ab5804634e98f3fd1754bf76b805ef81d2d80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:26 +0000
Subject: [PATCH 70/82] fix: Fortran MD_GetFASTtens takes floats, as the C
 function does

---
 wrappers/fortran/MoorDyn.f90 | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/wrappers/fortran/MoorDyn.f90 b/wrappers/fortran/MoorDyn.f90
index cb5e947..0667089 100644
--- a/wrappers/fortran/MoorDyn.f90
+++ b/wrappers/fortran/MoorDyn.f90
@@ -775,11 +775,19 @@ contains
     use iso_c_binding
     type(c_ptr), intent(in) :: instance
     integer(c_int), intent(inout) :: n
-    real(c_double), intent(in), target :: fht(:)
-    real(c_double), intent(in), target :: fvt(:)
-    real(c_double), intent(in), target :: aht(:)
-    real(c_double), intent(in), target :: avt(:)
-    MD_GetFASTtens = MoorDyn_GetFASTtens(instance, n, c_loc(fht), c_loc(fvt), c_loc(aht), c_loc(avt))
+    real(c_double), intent(inout) :: fht(:)
+    real(c_double), intent(inout) :: fvt(:)
+    real(c_double), intent(inout) :: aht(:)
+    real(c_double), intent(inout) :: avt(:)
+    ! MoorDyn_GetFASTtens() writes single precision numbers
+    real(c_float), target :: t(max(n, 1), 4)
+    MD_GetFASTtens = MoorDyn_GetFASTtens(instance, n, c_loc(t(1, 1)), c_loc(t(1, 2)), c_loc(t(1, 3)), c_loc(t(1, 4)))
+    if (MD_GetFASTtens == 0) then
+      fht(1:n) = t(1:n, 1)
+      fvt(1:n) = t(1:n, 2)
+      aht(1:n) = t(1:n, 3)
+      avt(1:n) = t(1:n, 4)
+    end if
   end function MD_GetFASTtens
 
   integer function MD_Save(instance, f)
-- 
2.43.0


From 69d5727cbe81a60913c9e9df11c03d1c0c13322d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:26 +0000
Subject: [PATCH 71/82] fix: Fortran line setters pass their scalars by value

---
 wrappers/fortran/MoorDyn.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/fortran/MoorDyn.f90 b/wrappers/fortran/MoorDyn.f90
index 0667089..6cef0fd 100644
--- a/wrappers/fortran/MoorDyn.f90
+++ b/wrappers/fortran/MoorDyn.f90
@@ -554,7 +554,7 @@ module moordyn
     integer(c_int) function MD_SetLineConstantEA(instance, ea) bind(c, name='MoorDyn_SetLineConstantEA')
       import :: c_ptr, c_double, c_int
       type(c_ptr), value, intent(in) :: instance
-      real(c_double), intent(out) :: ea
+      real(c_double), value, intent(in) :: ea
     end function MD_SetLineConstantEA
 
     integer(c_int) function MD_IsLinePressBend(instance, t) bind(c, name='MoorDyn_IsLinePressBend')
@@ -566,7 +566,7 @@ module moordyn
     integer(c_int) function MD_SetLinePressBend(instance, b) bind(c, name='MoorDyn_SetLinePressBend')
       import :: c_ptr, c_int
       type(c_ptr), value, intent(in) :: instance
-      integer(c_int), intent(out) :: b
+      integer(c_int), value, intent(in) :: b
     end function MD_SetLinePressBend
 
     function MoorDyn_SetLinePressInt(instance, p) bind(c, name='MoorDyn_SetLinePressInt') result(rc)
-- 
2.43.0


From 1b274c381c846ba84a18f405821664656d84f244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:26 +0000
Subject: [PATCH 72/82] fix: Fortran log functions pass their scalars by value

---
 wrappers/fortran/MoorDyn.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/fortran/MoorDyn.f90 b/wrappers/fortran/MoorDyn.f90
index 6cef0fd..2398433 100644
--- a/wrappers/fortran/MoorDyn.f90
+++ b/wrappers/fortran/MoorDyn.f90
@@ -109,13 +109,13 @@ module moordyn
     integer(c_int) function MD_SetLogLevel(instance, n) bind(c, name='MoorDyn_SetLogLevel')
       import :: c_ptr, c_int
       type(c_ptr), value, intent(in) :: instance
-      integer(c_int), intent(in) :: n
+      integer(c_int), value, intent(in) :: n
     end function MD_SetLogLevel
 
     function MoorDyn_Log(instance, n, f) bind(c, name='MoorDyn_Log') result(rc)
       import :: c_ptr, c_int, c_char
       type(c_ptr), value, intent(in) :: instance
-      integer(c_int), intent(in) :: n
+      integer(c_int), value, intent(in) :: n
       character(kind=c_char), intent(in) :: f(*)
       integer(c_int) :: rc
     end function MoorDyn_Log
-- 
2.43.0


From 4b18ed24a3ee4535be34662f1ec0b60ef5fb20eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:26 +0000
Subject: [PATCH 73/82] fix: Fortran wave functions follow the C signatures

---
 wrappers/fortran/MoorDyn.f90 | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/wrappers/fortran/MoorDyn.f90 b/wrappers/fortran/MoorDyn.f90
index 2398433..8f0618f 100644
--- a/wrappers/fortran/MoorDyn.f90
+++ b/wrappers/fortran/MoorDyn.f90
@@ -186,7 +186,7 @@ module moordyn
       type(c_ptr), value, intent(in) :: instance
       type(c_ptr), value, intent(in) :: u
       type(c_ptr), value, intent(in) :: ud
-      real(c_double), intent(in) :: t
+      real(c_double), value, intent(in) :: t
       integer(c_int) :: rc
     end function MoorDyn_ExternalWaveKinSet
 
@@ -273,13 +273,12 @@ module moordyn
     !                                Waves.h
     ! ==========================================================================
 
-    function MoorDyn_GetWavesKin(instance, x, y, z, t, u, ud, zeta, pdyn, seafloor) bind(c, name='MoorDyn_GetWavesKin') result(rc)
+    function MoorDyn_GetWavesKin(instance, x, y, z, u, ud, zeta, pdyn, seafloor) bind(c, name='MoorDyn_GetWavesKin') result(rc)
       import :: c_ptr, c_double, c_int
       type(c_ptr), value, intent(in) :: instance
       real(c_double), value, intent(in) :: x
       real(c_double), value, intent(in) :: y
       real(c_double), value, intent(in) :: z
-      real(c_double), value, intent(in) :: t
       type(c_ptr), value, intent(in) :: u
       type(c_ptr), value, intent(in) :: ud
       real(c_double), intent(out) :: zeta
@@ -826,7 +825,7 @@ contains
     real(c_double), intent(out) :: zeta
     real(c_double), intent(out) :: pdyn
     type(c_ptr), intent(in) :: seafloor
-    MD_GetWavesKin = MoorDyn_GetWavesKin(instance, x, y, z, t, c_loc(u), c_loc(ud), zeta, pdyn, seafloor)
+    MD_GetWavesKin = MoorDyn_GetWavesKin(instance, x, y, z, c_loc(u), c_loc(ud), zeta, pdyn, seafloor)
   end function MD_GetWavesKin
 
   !                                Body.h
-- 
2.43.0


From 3a03ba362aa28309b52907931b5af380077c4691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:26 +0000
Subject: [PATCH 74/82] fix: Generator Rod.material can be set

---
 wrappers/python/moordyn/Generator/Rod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/moordyn/Generator/Rod.py b/wrappers/python/moordyn/Generator/Rod.py
index 46c4384..d06de2a 100644
--- a/wrappers/python/moordyn/Generator/Rod.py
+++ b/wrappers/python/moordyn/Generator/Rod.py
@@ -218,7 +218,7 @@ class Rod(Entity):
         return self.__mat
 
     @material.setter
-    def d(self, material):
+    def material(self, material):
         self.__mat = material
         self.__set_values()
 
-- 
2.43.0


From 4ceaaa0c8ddbbd3b64d1daa4c0323f9151a763f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:26 +0000
Subject: [PATCH 75/82] fix: Generator writes the end letter of lines attached
 to rods

---
 wrappers/python/moordyn/Generator/Line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/moordyn/Generator/Line.py b/wrappers/python/moordyn/Generator/Line.py
index 0cd76ef..95fcb86 100644
--- a/wrappers/python/moordyn/Generator/Line.py
+++ b/wrappers/python/moordyn/Generator/Line.py
@@ -176,7 +176,7 @@ class LinePoint():
         str: The point string
         """
         if isinstance(self.__obj, Rod):
-            return "R" + str(self.__obj.name)
+            return "R" + str(self.__obj.name) + self.__end_point
         return str(self.__obj.name)
 
 
-- 
2.43.0


From 57849b5d3b8c18565b19f03a301bddbb11543765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:26 +0000
Subject: [PATCH 76/82] fix: Generator failures can be written

---
 wrappers/python/moordyn/Generator/Failure.py | 34 ++++++++++++++++----
 wrappers/python/moordyn/Generator/Mooring.py |  1 +
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/wrappers/python/moordyn/Generator/Failure.py b/wrappers/python/moordyn/Generator/Failure.py
index 901b356..d1901a8 100644
--- a/wrappers/python/moordyn/Generator/Failure.py
+++ b/wrappers/python/moordyn/Generator/Failure.py
@@ -2,6 +2,16 @@ from .Entity import Entity, PropsList
 from .Line import LinePoint
 
 
+class LinesList():
+    """The list of lines, which can be named afterwards
+    """
+    def __init__(self, lines):
+        self.__lines = lines
+
+    def __str__(self):
+        return str(PropsList([line.name for line in self.__lines], ","))
+
+
 class Failure(Entity):
     """A failure criteria
     """
@@ -19,21 +29,31 @@ class Failure(Entity):
         Entity.__init__(
             self,
             "FAILURE",
-            field_names=["Attach", "Lines", "FailTime", "FailTen"],
-            field_units=["(#)", "(#)", "(s)", "(N)"])
+            field_names=["ID", "Attach", "Lines", "FailTime", "FailTen"],
+            field_units=["(#)", "(#)", "(#)", "(s)", "(N)"])
+        self.__name = 0
         self.__point = point
         self.__lines = lines
         self.__time = time
         self.__ten = ten
         self.__set_values()
 
+    @property
+    def name(self):
+        return self.__name
+
+    @name.setter
+    def name(self, n):
+        self.__name = n
+        self.__set_values()
+
     @property
     def point(self):
-        return self.__con
+        return self.__point
 
     @point.setter
     def point(self, point):
-        self.__con = point
+        self.__point = point
         self.__set_values()
 
     @property
@@ -64,8 +84,8 @@ class Failure(Entity):
         self.__set_values()
 
     def __set_values(self):
-        l = PropsList([line.name for line in self.__lines], ",")
-        self.set_values([self.__con,
-                         PropsList([line.name for line in self.__lines], ","),
+        self.set_values([self.__name,
+                         self.__point,
+                         LinesList(self.__lines),
                          self.__time,
                          self.__ten])
diff --git a/wrappers/python/moordyn/Generator/Mooring.py b/wrappers/python/moordyn/Generator/Mooring.py
index 2ca5aae..df3aa48 100644
--- a/wrappers/python/moordyn/Generator/Mooring.py
+++ b/wrappers/python/moordyn/Generator/Mooring.py
@@ -54,6 +54,7 @@ class Mooring:
 
     def AddFailure(self, failure):
         self.__failures.append(failure)
+        failure.name = len(self.__failures)
 
     def AddOption(self, option):
         self.__options.append(option)
-- 
2.43.0


From 71e4b4625f96fbf6acb1765555eabbbe075afd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:26 +0000
Subject: [PATCH 77/82] fix: Generator bodies follow the columns of the input
 file

---
 wrappers/python/moordyn/Generator/Body.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/wrappers/python/moordyn/Generator/Body.py b/wrappers/python/moordyn/Generator/Body.py
index 5fdd199..ed012bb 100644
--- a/wrappers/python/moordyn/Generator/Body.py
+++ b/wrappers/python/moordyn/Generator/Body.py
@@ -45,14 +45,14 @@ class BodyPoint():
 class Body(Entity):
     """A body
     """
-    def __init__(self, t, p, r, m, cog, inertia, cda, v):
+    def __init__(self, t, p, r, m, cog, inertia, cda, v, ca=0):
         """Constructor
 
         Parameters
         ----------
         t (BodyPoint): The type of body point
         p (list): Point (3 components)
-        r (list): Rotation (3 components, radians)
+        r (list): Rotation (3 components, degrees)
         m (float): Node mass in the case of clump weights (kg)
         cog (float/list): The center of gravity (3 components). If just a single
                           number is provided, then (0, 0, cog) is considered
@@ -68,8 +68,8 @@ class Body(Entity):
         Entity.__init__(
             self,
             "BODIES",
-            field_names=["ID", "Type", "X   Y   Z  ", "Roll  Pitch Yaw", "Mass", "CoG", "Volume", "Inertia", "CdA", "Ca"],
-            field_units=["(#)", "(name)", "(m) (m) (m)", "(rad) (rad) (rad)", "(kg)", "(m)", "(m^3)", "(kg*m^2)", "(m^2)", "(-)"])
+            field_names=["ID", "Type", "X   Y   Z  ", "Roll  Pitch Yaw", "Mass", "CoG", "Inertia", "Volume", "CdA", "Ca"],
+            field_units=["(#)", "(name)", "(m) (m) (m)", "(deg) (deg) (deg)", "(kg)", "(m)", "(kg*m^2)", "(m^3)", "(m^2)", "(-)"])
         self.__name = 0
         self.__t = t
         self.__p = PropsList(p, " ")
@@ -179,7 +179,7 @@ class Body(Entity):
                          self.__r,
                          self.__m,
                          self.__cog,
-                         self.__v,
                          self.__I,
+                         self.__v,
                          self.__cda,
                          self.__ca])
-- 
2.43.0


From 3ae5d9371f64d4eefff3a34ddd005caa23784ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:26 +0000
Subject: [PATCH 78/82] fix: Generator points can be attached to bodies

---
 wrappers/python/moordyn/Generator/Point.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/wrappers/python/moordyn/Generator/Point.py b/wrappers/python/moordyn/Generator/Point.py
index 66f778b..12c0f43 100644
--- a/wrappers/python/moordyn/Generator/Point.py
+++ b/wrappers/python/moordyn/Generator/Point.py
@@ -2,6 +2,16 @@ from .Entity import Entity, PropsList
 from .Body import Body
 
 
+class PointBody():
+    """The body a point is attached to, which can be named afterwards
+    """
+    def __init__(self, body):
+        self.__body = body
+
+    def __str__(self):
+        return "BODY" + str(self.__body.name)
+
+
 class Point(Entity):
     """A point
     """
@@ -98,8 +108,9 @@ class Point(Entity):
         self.__set_values()
 
     def __set_values(self):
+        t = PointBody(self.__t) if isinstance(self.__t, Body) else self.__t
         self.set_values([self.__name,
-                         self.__t,
+                         t,
                          self.__p,
                          self.__m,
                          self.__v,
-- 
2.43.0


From 56fc3801c595f33add23026f9315bce67f72cb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:41 +0000
Subject: [PATCH 79/82] fix: MATLAB functions that take a file name read it
 from the second argument

The first one is the handle of the object, so they all failed.
---
 wrappers/matlab/MoorDynM_Load.cpp        | 2 +-
 wrappers/matlab/MoorDynM_Save.cpp        | 2 +-
 wrappers/matlab/MoorDynM_SaveBodyVTK.cpp | 2 +-
 wrappers/matlab/MoorDynM_SaveLineVTK.cpp | 2 +-
 wrappers/matlab/MoorDynM_SaveRodVTK.cpp  | 2 +-
 wrappers/matlab/MoorDynM_SaveVTK.cpp     | 2 +-
 wrappers/matlab/MoorDynM_SetLogFile.cpp  | 2 +-
 wrappers/matlab/MoorDynM_UseBodyVTK.cpp  | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/wrappers/matlab/MoorDynM_Load.cpp b/wrappers/matlab/MoorDynM_Load.cpp
index 621d7fe..06d3549 100644
--- a/wrappers/matlab/MoorDynM_Load.cpp
+++ b/wrappers/matlab/MoorDynM_Load.cpp
@@ -39,7 +39,7 @@ using matlab::mex::ArgumentList;
 
 MOORDYNM_MEX_FUNCTION_BEGIN(MoorDyn, 2, 0)
 {
-	const CharArray filename_matlab = inputs[0];
+	const CharArray filename_matlab = inputs[1];
 	std::string filename(filename_matlab.toAscii());
 	const int err = MoorDyn_Load(instance, filename.c_str());
 	MOORDYNM_CHECK_ERROR(err);
diff --git a/wrappers/matlab/MoorDynM_Save.cpp b/wrappers/matlab/MoorDynM_Save.cpp
index ca77aa0..c9d930c 100644
--- a/wrappers/matlab/MoorDynM_Save.cpp
+++ b/wrappers/matlab/MoorDynM_Save.cpp
@@ -39,7 +39,7 @@ using matlab::mex::ArgumentList;
 
 MOORDYNM_MEX_FUNCTION_BEGIN(MoorDyn, 2, 0)
 {
-	const CharArray filename_matlab = inputs[0];
+	const CharArray filename_matlab = inputs[1];
 	std::string filename(filename_matlab.toAscii());
 	const int err = MoorDyn_Save(instance, filename.c_str());
 	MOORDYNM_CHECK_ERROR(err);
diff --git a/wrappers/matlab/MoorDynM_SaveBodyVTK.cpp b/wrappers/matlab/MoorDynM_SaveBodyVTK.cpp
index 4d3ae7b..fb8a600 100644
--- a/wrappers/matlab/MoorDynM_SaveBodyVTK.cpp
+++ b/wrappers/matlab/MoorDynM_SaveBodyVTK.cpp
@@ -39,7 +39,7 @@ using matlab::mex::ArgumentList;
 
 MOORDYNM_MEX_FUNCTION_BEGIN(MoorDynBody, 2, 0)
 {
-	const CharArray filename_matlab = inputs[0];
+	const CharArray filename_matlab = inputs[1];
 	std::string filename(filename_matlab.toAscii());
 	const int err = MoorDyn_SaveBodyVTK(instance, filename.c_str());
 	MOORDYNM_CHECK_ERROR(err);
diff --git a/wrappers/matlab/MoorDynM_SaveLineVTK.cpp b/wrappers/matlab/MoorDynM_SaveLineVTK.cpp
index 3f62c62..972e19d 100644
--- a/wrappers/matlab/MoorDynM_SaveLineVTK.cpp
+++ b/wrappers/matlab/MoorDynM_SaveLineVTK.cpp
@@ -39,7 +39,7 @@ using matlab::mex::ArgumentList;
 
 MOORDYNM_MEX_FUNCTION_BEGIN(MoorDynLine, 2, 0)
 {
-	const CharArray filename_matlab = inputs[0];
+	const CharArray filename_matlab = inputs[1];
 	std::string filename(filename_matlab.toAscii());
 	const int err = MoorDyn_SaveLineVTK(instance, filename.c_str());
 	MOORDYNM_CHECK_ERROR(err);
diff --git a/wrappers/matlab/MoorDynM_SaveRodVTK.cpp b/wrappers/matlab/MoorDynM_SaveRodVTK.cpp
index 7f2f4d1..a20c4b8 100644
--- a/wrappers/matlab/MoorDynM_SaveRodVTK.cpp
+++ b/wrappers/matlab/MoorDynM_SaveRodVTK.cpp
@@ -39,7 +39,7 @@ using matlab::mex::ArgumentList;
 
 MOORDYNM_MEX_FUNCTION_BEGIN(MoorDynRod, 2, 0)
 {
-	const CharArray filename_matlab = inputs[0];
+	const CharArray filename_matlab = inputs[1];
 	std::string filename(filename_matlab.toAscii());
 	const int err = MoorDyn_SaveRodVTK(instance, filename.c_str());
 	MOORDYNM_CHECK_ERROR(err);
diff --git a/wrappers/matlab/MoorDynM_SaveVTK.cpp b/wrappers/matlab/MoorDynM_SaveVTK.cpp
index 4438cc3..f391836 100644
--- a/wrappers/matlab/MoorDynM_SaveVTK.cpp
+++ b/wrappers/matlab/MoorDynM_SaveVTK.cpp
@@ -39,7 +39,7 @@ using matlab::mex::ArgumentList;
 
 MOORDYNM_MEX_FUNCTION_BEGIN(MoorDyn, 2, 0)
 {
-	const CharArray filename_matlab = inputs[0];
+	const CharArray filename_matlab = inputs[1];
 	std::string filename(filename_matlab.toAscii());
 	const int err = MoorDyn_SaveVTK(instance, filename.c_str());
 	MOORDYNM_CHECK_ERROR(err);
diff --git a/wrappers/matlab/MoorDynM_SetLogFile.cpp b/wrappers/matlab/MoorDynM_SetLogFile.cpp
index 19eab34..6d09654 100644
--- a/wrappers/matlab/MoorDynM_SetLogFile.cpp
+++ b/wrappers/matlab/MoorDynM_SetLogFile.cpp
@@ -39,7 +39,7 @@ using matlab::mex::ArgumentList;
 
 MOORDYNM_MEX_FUNCTION_BEGIN(MoorDyn, 2, 0)
 {
-	const CharArray filename_matlab = inputs[0];
+	const CharArray filename_matlab = inputs[1];
 	std::string filename(filename_matlab.toAscii());
 	const int err = MoorDyn_SetLogFile(instance, filename.c_str());
 	MOORDYNM_CHECK_ERROR(err);
diff --git a/wrappers/matlab/MoorDynM_UseBodyVTK.cpp b/wrappers/matlab/MoorDynM_UseBodyVTK.cpp
index e247027..df59c8d 100644
--- a/wrappers/matlab/MoorDynM_UseBodyVTK.cpp
+++ b/wrappers/matlab/MoorDynM_UseBodyVTK.cpp
@@ -39,7 +39,7 @@ using matlab::mex::ArgumentList;
 
 MOORDYNM_MEX_FUNCTION_BEGIN(MoorDynBody, 2, 0)
 {
-	const CharArray filename_matlab = inputs[0];
+	const CharArray filename_matlab = inputs[1];
 	std::string filename(filename_matlab.toAscii());
 	const int err = MoorDyn_UseBodyVTK(instance, filename.c_str());
 	MOORDYNM_CHECK_ERROR(err);
-- 
2.43.0


From 3bb6bc5a9da00ad7a5c8de4a613d3bd04db147eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:41 +0000
Subject: [PATCH 80/82] fix: MoorDyn_UseBodyVTK() reports missing and
 unreadable vtp files

The XML reader of VTK does not set an error code for them, so the body was replaced by an empty mesh.
---
 source/Body.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/Body.cpp b/source/Body.cpp
index 2874720..19b172d 100644
--- a/source/Body.cpp
+++ b/source/Body.cpp
@@ -941,9 +941,14 @@ MoorDyn_UseBodyVTK(MoorDynBody b, const char* filename)
 	moordyn::error_id err = MOORDYN_SUCCESS;
 	if (ext == "vtp") {
 		auto reader = vtkSmartPointer<vtkXMLPolyDataReader>::New();
-		reader->SetFileName(filename);
-		reader->Update();
-		err = moordyn::io::vtk_error(reader->GetErrorCode());
+		// The reader does not set an error code for missing or alien files
+		if (!reader->CanReadFile(filename)) {
+			err = MOORDYN_INVALID_INPUT_FILE;
+		} else {
+			reader->SetFileName(filename);
+			reader->Update();
+			err = moordyn::io::vtk_error(reader->GetErrorCode());
+		}
 		if (err == MOORDYN_SUCCESS)
 			model = reader->GetOutput();
 	} else if (ext == "stl") {
-- 
2.43.0


From 9191da6eafc55a80ec685c55a2ab1001704cb4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:52 +0000
Subject: [PATCH 81/82] fix: coupled pinned rods of no length reported not a
 number forces

A rod of zero length has no rotational inertia, so its angular acceleration is not computed from a singular matrix.
---
 source/Rod.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/Rod.cpp b/source/Rod.cpp
index 60631ff..d464d18 100644
--- a/source/Rod.cpp
+++ b/source/Rod.cpp
@@ -698,7 +698,9 @@ Rod::getStateDeriv()
 		// https://eigen.tuxfamily.org/dox/group__TutorialLinearAlgebra.html
 		const mat M_out3 = M_out6(Eigen::seqN(3, 3), Eigen::seqN(3, 3));
 		acc6(Eigen::seqN(0, 3)) = vec::Zero();
-		acc6(Eigen::seqN(3, 3)) = M_out3.inverse() * Fnet_out3;
+		// zero-length rods have no rotational inertia
+		acc6(Eigen::seqN(3, 3)) =
+		    N ? vec(M_out3.inverse() * Fnet_out3) : vec(vec::Zero());
 
 		// dxdt = V   (velocities)
 		vel7.pos = vec::Zero();
-- 
2.43.0


From ad9cac1434a7b877eec740c9d34474406eb78906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:52 +0000
Subject: [PATCH 82/82] fix: tabulated bending stiffness failed for straight
 lines

The equivalent stiffness at zero curvature was 0/0; it is the initial slope of the curve.
---
 source/Line.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/Line.cpp b/source/Line.cpp
index a1bb988..0098adb 100644
--- a/source/Line.cpp
+++ b/source/Line.cpp
@@ -84,6 +84,9 @@ Line::getNonlinearEI(real curv) const
 		return EI;
 
 	real Xi = curv;
+	// for a straight line the equivalent stiffness is the slope of the curve
+	if (Xi == 0.0 && nEIpoints > 1)
+		return (bstiffYs[1] - bstiffYs[0]) / (bstiffXs[1] - bstiffXs[0]);
 	real Yi = interp(bstiffXs, bstiffYs, Xi);
 
 	// calculate equivalent bending stiffness (since that's what MoorDyn works
-- 
2.43.0

