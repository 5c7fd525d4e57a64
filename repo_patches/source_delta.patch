From 01217b39cd9f717e8112ed069511ad3fd3d502c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 01/82] fix: same sign of the N=2 QCD force in both precisions
 of the saxion kernels

---
 include/propagator/propXeon.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/propagator/propXeon.h b/include/propagator/propXeon.h
index a518fd9..4381e16 100755
--- a/include/propagator/propXeon.h
+++ b/include/propagator/propXeon.h
@@ -303,7 +303,7 @@ inline	void	propagateKernelXeon(const void * __restrict__ m_, void * __restrict_
 						mMx = opCode(add_pd, mMx, opCode(mul_pd, opCode(set1_pd, zQ), opCode(sub_pd, zRVec, mel)));
 					break;
 					case V_QCD2:
-						mMx = opCode(sub_pd, mMx, opCode(mul_pd,zNVec,mel));
+						mMx = opCode(add_pd, mMx, opCode(mul_pd,zNVec,mel));
 					break;
 					case V_QCDC:
 						tmp2 = opCode(div_pd,
@@ -1608,7 +1608,7 @@ LogMsg(VERB_PARANOID,"[pX] z0 %d zF %d zM %d bY %d bSizeZ %d bSizeY %d [NN %d]",
 					mMx = opCode(add_ps, mMx, opCode(mul_ps, opCode(set1_ps, zQ), opCode(sub_ps, zRVec, mel)));
 				break;
 				case V_QCD2:
-					mMx = opCode(sub_ps, mMx, opCode(mul_ps,zNVec,mel));
+					mMx = opCode(add_ps, mMx, opCode(mul_ps,zNVec,mel));
 				break;
 				case V_QCDL:
 				case V_QCDC:
-- 
2.43.0


From ccdaca6019c2e0300db83fc939504fb7814a510f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 02/82] fix: radial damping in double precision AVX swaps both
 lanes

---
 include/propagator/propXeon.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/propagator/propXeon.h b/include/propagator/propXeon.h
index 4381e16..ca7cf02 100755
--- a/include/propagator/propXeon.h
+++ b/include/propagator/propXeon.h
@@ -380,7 +380,7 @@ inline	void	propagateKernelXeon(const void * __restrict__ m_, void * __restrict_
 					// mel = M, mMx = A
 					tmp = opCode(mul_pd, mel, mMx);
 #if	defined(__AVX__)// || defined(__AVX512F__)
-					auto vecma = opCode(add_pd, opCode(permute_pd, tmp, 0b00000001), tmp);
+					auto vecma = opCode(add_pd, opCode(permute_pd, tmp, 0b00000101), tmp);
 #else
 					auto vecma = opCode(add_pd, opCode(shuffle_pd, tmp, tmp, 0b00000001), tmp);
 #endif
@@ -1315,7 +1315,7 @@ inline	void	updateVXeon(const void * __restrict__ m_, void * __restrict__ v_, Pr
 					// mel = M, mMx = A
 					tmp = opCode(mul_pd, mel, mMx);
 #if	defined(__AVX__)// || defined(__AVX512F__)
-					auto vecma = opCode(add_pd, opCode(permute_pd, tmp, 0b00000001), tmp);
+					auto vecma = opCode(add_pd, opCode(permute_pd, tmp, 0b00000101), tmp);
 #else
 					auto vecma = opCode(add_pd, opCode(shuffle_pd, tmp, tmp, 0b00000001), tmp);
 #endif
-- 
2.43.0


From c65f0c4e4cda8471a1704db1757e7b2b7b82fc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 03/82] fix: vqcd0_pd returns (y*y, x*y) in every complex slot

---
 include/utils/triSimd.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utils/triSimd.h b/include/utils/triSimd.h
index e37961b..8d16b02 100644
--- a/include/utils/triSimd.h
+++ b/include/utils/triSimd.h
@@ -529,9 +529,9 @@ inline _MData_	opCode(md2_pd, const _MData_ &x)
 inline _MData_	opCode(vqcd0_pd, const _MData_ &x)
 {
 #if defined(__AVX__)
-	return	opCode(mul_pd, opCode(permute_pd, x, 0b00010001), opCode(permute_pd, x, 0b01010101));  //(y,x)*(y,y)
+	return	opCode(mul_pd, opCode(permute_pd, x, 0b00000101), opCode(permute_pd, x, 0b00001111));  //(y,x)*(y,y)
 #else
-	return	opCode(mul_pd, opCode(shuffle_pd, x, x, 0b0001), opCode(shuffle_pd, x, x, 0b0101));
+	return	opCode(mul_pd, opCode(shuffle_pd, x, x, 0b0001), opCode(shuffle_pd, x, x, 0b0011));
 #endif
 }
 #undef	_MData_
-- 
2.43.0


From 9138eb12c903feed0ef501aac1fa67ff9fc3ac06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:29 +0000
Subject: [PATCH 04/82] fix: double-precision potential relaxation reads the
 potential, not a null pointer

---
 include/gravity/gravityPaxionXeon.h | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/gravity/gravityPaxionXeon.h b/include/gravity/gravityPaxionXeon.h
index 3b21a98..7af8a4d 100644
--- a/include/gravity/gravityPaxionXeon.h
+++ b/include/gravity/gravityPaxionXeon.h
@@ -379,45 +379,45 @@
 									idxMy = ( idx + Sf - nv*XC );
 									idxPy = ( idx + nv*XC );
 
-									mPy = opCode(load_pd, &m[idxPy]);
+									mPy = opCode(load_pd, &m2h[idxPy]);
 	#ifdef	__AVX512F__
-									mMy = opCode(permutexvar_pd, vShRg, opCode(load_pd, &m[idxMy]));
+									mMy = opCode(permutexvar_pd, vShRg, opCode(load_pd, &m2h[idxMy]));
 	#elif	defined(__AVX2__)
-									mMy = opCode(castsi256_pd, opCode(permutevar8x32_epi32, opCode(castpd_si256, opCode(load_pd, &m[idxMy])), opCode(setr_epi32, 6,7,0,1,2,3,4,5)));
+									mMy = opCode(castsi256_pd, opCode(permutevar8x32_epi32, opCode(castpd_si256, opCode(load_pd, &m2h[idxMy])), opCode(setr_epi32, 6,7,0,1,2,3,4,5)));
 	#elif	defined(__AVX__)
-									acu = opCode(permute_pd, opCode(load_pd, &m[idxMy]), 0b00000101);
+									acu = opCode(permute_pd, opCode(load_pd, &m2h[idxMy]), 0b00000101);
 									vel = opCode(permute2f128_pd, acu, acu, 0b00000001);
 									mMy = opCode(blend_pd, acu, vel, 0b00000101);
 	#else
-									acu = opCode(load_pd, &m[idxMy]);
+									acu = opCode(load_pd, &m2h[idxMy]);
 									mMy = opCode(shuffle_pd, acu, acu, 0x00000001);
 	#endif
 								}
 	else
 								{
 									idxMy = ( idx - nv*XC );
-									mMy = opCode(load_pd, &m[idxMy]);
+									mMy = opCode(load_pd, &m2h[idxMy]);
 
 									if (X[1] + nv >= YC)
 									{
 										idxPy = ( idx + nv*XC - Sf );
 	#ifdef	__AVX512F__
-										mPy = opCode(permutexvar_pd, vShLf, opCode(load_pd, &m[idxPy]));
+										mPy = opCode(permutexvar_pd, vShLf, opCode(load_pd, &m2h[idxPy]));
 	#elif	defined(__AVX2__)	//AVX2
-										mPy = opCode(castsi256_pd, opCode(permutevar8x32_epi32, opCode(castpd_si256, opCode(load_pd, &m[idxPy])), opCode(setr_epi32, 2,3,4,5,6,7,0,1)));
+										mPy = opCode(castsi256_pd, opCode(permutevar8x32_epi32, opCode(castpd_si256, opCode(load_pd, &m2h[idxPy])), opCode(setr_epi32, 2,3,4,5,6,7,0,1)));
 	#elif	defined(__AVX__)
-										acu = opCode(permute_pd, opCode(load_pd, &m[idxPy]), 0b00000101);
+										acu = opCode(permute_pd, opCode(load_pd, &m2h[idxPy]), 0b00000101);
 										vel = opCode(permute2f128_pd, acu, acu, 0b00000001);
 										mPy = opCode(blend_pd, acu, vel, 0b00001010);
 	#else
-										vel = opCode(load_pd, &m[idxPy]);
+										vel = opCode(load_pd, &m2h[idxPy]);
 										mPy = opCode(shuffle_pd, vel, vel, 0x00000001);
 	#endif
 									}
 									else
 									{
 										idxPy = ( idx + nv*XC );
-										mPy = opCode(load_pd, &m[idxPy]);
+										mPy = opCode(load_pd, &m2h[idxPy]);
 									}
 								}
 
@@ -431,8 +431,8 @@
 													opCode(add_pd,
 														opCode(add_pd, mPy, mMy),
 															opCode(add_pd,
-																opCode(add_pd, opCode(load_pd, &m[idxPx]), opCode(load_pd, &m[idxMx])),
-																	opCode(add_pd, opCode(load_pd, &m[idxPz]), opCode(load_pd, &m[idxMz]))
+																opCode(add_pd, opCode(load_pd, &m2h[idxPx]), opCode(load_pd, &m2h[idxMx])),
+																	opCode(add_pd, opCode(load_pd, &m2h[idxPz]), opCode(load_pd, &m2h[idxMz]))
 															)
 													),
 													opCode(mul_pd, mel, m6Vec));
-- 
2.43.0


From f60a955e3a906215a5d22058bc6ddb434baca596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:06 +0000
Subject: [PATCH 05/82] fix: axion propagator refreshes mass and scale factor
 at every stage

---
 include/propagator/propClass.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index 009cd8a..d9fd264 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -530,6 +530,10 @@
 
 		#pragma unroll
 		for (int s = 0; s<nStages; s+=2) {
+			ppar.massA2 = axion->AxionMassSq();
+			ppar.R      = *axion->RV();
+			ppar.Rpp    = axion->Rpp();
+
 			axion->sendGhosts(FIELD_M, COMM_SDRV);
 
 			const double c1 = c[s], c2 = c[s+1], d1 = cD[s], d2 = cD[s+1];
@@ -563,7 +567,7 @@
 
 			const double	c0 = c[nStages], maa = axion->AxionMassSq();
 
-			ppar.massA  = axion->AxionMassSq();
+			ppar.massA2 = axion->AxionMassSq();
 			ppar.R      = *axion->RV();
 			ppar.Rpp    = axion->Rpp();
 
-- 
2.43.0


From bc5a91a87321b76a2a494cfdd5b4c45303cad381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:06 +0000
Subject: [PATCH 06/82] fix: low-memory saxion propagator drifts the field and
 sets the scale-factor derivative

---
 include/propagator/propClass.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index d9fd264..0ed91a8 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -762,6 +762,7 @@
 			ppar.massA2 = axion->AxionMassSq();
 			ppar.R      = *axion->RV();
 			ppar.Rpp    = axion->Rpp();
+			ppar.Rp     = axion->BckGnd()->Rp(*axion->zV());
 
 			axion->sendGhosts(FIELD_M, COMM_SDRV);
 
@@ -772,7 +773,7 @@
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, V   , V+BO, precision, xBlock, yBlock, zBlock);
 
-			/*missing update M?*/
+			updateMXeon(axion->mCpu(), axion->vCpu(), dz, d0, Lx, BO, V+BO, precision, xBlock, yBlock, zBlock);
 			*z += dz*d0;
 			axion->updateR();
 		}
@@ -784,6 +785,7 @@
 			ppar.massA2 = axion->AxionMassSq();
 			ppar.R      = *axion->RV();
 			ppar.Rpp    = axion->Rpp();
+			ppar.Rp     = axion->BckGnd()->Rp(*axion->zV());
 
 			const double c0 = c[nStages];
 
-- 
2.43.0


From 84ea7be2666886be09fbbc9ba9801c109eb06f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:16 +0000
Subject: [PATCH 07/82] fix: slabs with fewer than twice Ng slices updated the
 same slices twice per stage

---
 include/propagator/propClass.h | 44 ++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index 0ed91a8..7a28902 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -513,6 +513,8 @@
 		ppar.beta  = axion->BckGnd()->ICData().beta;
 		/* Returns ghost size region in slices */
 		size_t BO = ppar.Ng*S;
+		/* Start of the last slices, not counting those already in [BO,2*BO) */
+		const size_t top = (V > 2*BO) ? V : 2*BO;
 
 		if (lastStage == PROP_FIRST) {
 			/* Last kick */
@@ -541,8 +543,7 @@
 			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, 2*BO, V , precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, BO, 2*BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
-			if (V>BO)
-			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, V , V+BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
+			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, top , V+BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			*z += dz*d1;
 			axion->updateR();
 			axion->sendGhosts(FIELD_M2, COMM_SDRV);
@@ -554,8 +555,7 @@
 			propThetaKernelXeon(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, 2*BO, V   , precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			axion->sendGhosts(FIELD_M2, COMM_WAIT);
 			propThetaKernelXeon(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, BO  , 2*BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
-			if (V>BO)
-			propThetaKernelXeon(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, V   , V+BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
+			propThetaKernelXeon(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, top , V+BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			*z += dz*d2;
 			axion->updateR();
 		}
@@ -574,8 +574,7 @@
 			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0., 2*BO, V   , precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0., BO  , 2*BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
-			if (V>BO)
-			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0., V   , V+BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
+			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0., top , V+BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
 		}
 
 	}
@@ -661,6 +660,8 @@
 
 		/* Returns ghost size region in slices */
 		size_t BO = ppar.Ng*S;
+		/* Start of the last slices, not counting those already in [BO,2*BO) */
+		const size_t top = (V > 2*BO) ? V : 2*BO;
 
 		auto *cD  = d;
 
@@ -690,8 +691,7 @@
 			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			if (V>BO)
-			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, top , V+BO, precision, xBlock, yBlock, zBlock);
 			*z += dz*d1;
 			axion->updateR();
 
@@ -706,8 +706,7 @@
 			propagateKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M2, COMM_WAIT);
 			propagateKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			if (V>BO)
-			propagateKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagateKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, top , V+BO, precision, xBlock, yBlock, zBlock);
 			*z += dz*d2;
 			axion->updateR();
 		}
@@ -727,8 +726,7 @@
 			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			if (V>BO)
-			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagateKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, top , V+BO, precision, xBlock, yBlock, zBlock);
 		}
 
 		axion->setM2     (M2_DIRTY);
@@ -754,6 +752,8 @@
 
 
 		size_t BO = ppar.Ng*S;
+		/* Start of the last slices, not counting those already in [BO,2*BO) */
+		const size_t top = (V > 2*BO) ? V : 2*BO;
 
 		#pragma unroll
 		for (int s = 0; s<nStages; s++) {
@@ -771,7 +771,7 @@
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, top , V+BO, precision, xBlock, yBlock, zBlock);
 
 			updateMXeon(axion->mCpu(), axion->vCpu(), dz, d0, Lx, BO, V+BO, precision, xBlock, yBlock, zBlock);
 			*z += dz*d0;
@@ -792,7 +792,7 @@
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, top , V+BO, precision, xBlock, yBlock, zBlock);
 
 		}
 	}
@@ -1025,6 +1025,8 @@
 		ppar.beta  = axion->BckGnd()->ICData().beta;
 		/* Returns ghost size region in slices */
 		size_t BO = ppar.Ng*S;
+		/* Start of the last slices, not counting those already in [BO,2*BO) */
+		const size_t top = (V > 2*BO) ? V : 2*BO;
 		size_t CO = V-2*ppar.Ng*S;
 
 		LogMsg(VERB_PARANOID,"[propNax] Ng %d",ppar.Ng);
@@ -1042,7 +1044,7 @@
 			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, top , V+BO, precision, xBlock, yBlock, zBlock);
 			*axion->zV() += dz*d1;
 			axion->updateR();
 
@@ -1054,7 +1056,7 @@
 			propagateNaxKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M2, COMM_WAIT);
 			propagateNaxKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			propagateNaxKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagateNaxKernelXeon<VQcd>(axion->m2Cpu(), axion->vCpu(), axion->mCpu(), ppar, dz, c2, d2, top , V+BO, precision, xBlock, yBlock, zBlock);
 			*axion->zV() += dz*d2;
 			axion->updateR();
 		}
@@ -1070,7 +1072,7 @@
 			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagateNaxKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, top , V+BO, precision, xBlock, yBlock, zBlock);
 
 		}
 		axion->setM2     (M2_DIRTY);
@@ -1094,6 +1096,8 @@
 
 		/* Returns ghost size region in slices */
 		size_t BO = ppar.Ng*S;
+		/* Start of the last slices, not counting those already in [BO,2*BO) */
+		const size_t top = (V > 2*BO) ? V : 2*BO;
 
 		LogMsg(VERB_PARANOID,"[propPax] Ng %d ood2 %e beta %f PC %f %f %f ",ppar.Ng,ppar.ood2a,ppar.beta,ppar.PC[0],ppar.PC[1],ppar.PC[2]);
 
@@ -1126,7 +1130,7 @@
 			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c1, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c1, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c1, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c1, top , V+BO, precision, xBlock, yBlock, zBlock);
 
 			axion->sendGhosts(FIELD_V, COMM_SDRV);
 
@@ -1138,7 +1142,7 @@
 			propagatePaxKernelXeon<KIDI_LAP>(axion->vCpu(), axion->mCpu(), nada, ppar, dz*d1, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_V, COMM_WAIT);
 			propagatePaxKernelXeon<KIDI_LAP>(axion->vCpu(), axion->mCpu(), nada, ppar, dz*d1, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			propagatePaxKernelXeon<KIDI_LAP>(axion->vCpu(), axion->mCpu(), nada, ppar, dz*d1, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagatePaxKernelXeon<KIDI_LAP>(axion->vCpu(), axion->mCpu(), nada, ppar, dz*d1, top , V+BO, precision, xBlock, yBlock, zBlock);
 			*axion->zV() += dz*d1;
 			axion->updateR();
 		}
@@ -1156,7 +1160,7 @@
 			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c0, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c0, BO  , 2*BO, precision, xBlock, yBlock, zBlock);
-			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c0, V   , V+BO, precision, xBlock, yBlock, zBlock);
+			propagatePaxKernelXeon<KIDI_LAP>(axion->mCpu(), axion->vCpu(), nada, ppar, dz*c0, top , V+BO, precision, xBlock, yBlock, zBlock);
 
 		}
 
-- 
2.43.0


From e3800476d104fd2e53d6e3c5bc1d909991bea763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:47 +0000
Subject: [PATCH 08/82] fix: double-precision saxion energy truncated 1/R^2 to
 an integer, so the kinetic energy vanished for R>1

---
 lib/energy/energyXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/energy/energyXeon.cpp b/lib/energy/energyXeon.cpp
index f3379d1..ba4fc1f 100755
--- a/lib/energy/energyXeon.cpp
+++ b/lib/energy/energyXeon.cpp
@@ -47,7 +47,7 @@ void	energyKernelXeon(const void * __restrict__ m_, const void * __restrict__ v_
 	const size_t Vo     = ppar.Vo;
 	const size_t Vf     = ppar.Vf;
 	const size_t Vt     = ppar.Vt;
-	const size_t iR2    = 1./R/R;
+	const double iR2    = 1./R/R;
 
 	const size_t Sf = Lx*Lx;
 
-- 
2.43.0


From 3db6fe4746ad094663d75f76f5a2d6fa87faff5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:47 +0000
Subject: [PATCH 09/82] fix: V_QCD2 energy divided the overwritten |phi|^2
 instead of Re(phi)^2 by |phi|^2

---
 lib/energy/energyXeon.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/energy/energyXeon.cpp b/lib/energy/energyXeon.cpp
index ba4fc1f..919964d 100755
--- a/lib/energy/energyXeon.cpp
+++ b/lib/energy/energyXeon.cpp
@@ -430,7 +430,7 @@ LogMsg(VERB_PARANOID,"Sf %d Vt %d NN %d", Sf, Vt, NN);LogFlush();
 					break;
 					case V_QCD2:
 						/* (1 - Im(Phi)^2/|Phi|^2)/2 = */
-						mCg = opCode(mul_pd, hVec, opCode(sub_pd, one, opCode(div_pd, Gry, Grz)));
+						mCg = opCode(mul_pd, hVec, opCode(sub_pd, one, opCode(div_pd, opCode(mul_pd, Grx, Grx), Grz)));
 					break;
 					case V_QCDC:
 						/* (1 - Re(|phi)/|Phi|) */
@@ -1087,7 +1087,7 @@ if (emask & EN_ENE){
 					break;
 					case V_QCD2:
 						/* (1 - Im(Phi)^2/|Phi|^2)/2 = */
-						mCg = opCode(mul_ps, hVec, opCode(sub_ps, one, opCode(div_ps, Gry, Grz)));
+						mCg = opCode(mul_ps, hVec, opCode(sub_ps, one, opCode(div_ps, opCode(mul_ps, Grx, Grx), Grz)));
 					break;
 					case V_QCDC:
 						/* (1 - Re(|phi)/|Phi|) */
-- 
2.43.0


From c44b288bae9c7beff1f700d9af6c0daae565fdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:56 +0000
Subject: [PATCH 10/82] fix: double-precision saxion energy never returned the
 mean rho and raced on the masked sums

---
 lib/energy/energyXeon.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/energy/energyXeon.cpp b/lib/energy/energyXeon.cpp
index 919964d..0e162f2 100755
--- a/lib/energy/energyXeon.cpp
+++ b/lib/energy/energyXeon.cpp
@@ -135,7 +135,7 @@ LogMsg(VERB_PARANOID,"Sf %d Vt %d NN %d", Sf, Vt, NN);LogFlush();
 
 			double tmpS[2*step] __attribute__((aligned(Align)));
 
-			#pragma omp for schedule(static) reduction(+:Vrho,Vth,Krho,Kth,Gxrho,Gxth,Gyrho,Gyth,Gzrho,Gzth,VrhoM,VthM,KrhoM,KthM,GxrhoM,GxthM,GyrhoM,GythM,GzrhoM,GzthM,Rrho)
+			#pragma omp for schedule(static) reduction(+:Vrho,Vth,Krho,Kth,Gxrho,Gxth,Gyrho,Gyth,Gzrho,Gzth,VrhoM,VthM,KrhoM,KthM,GxrhoM,GxthM,GyrhoM,GythM,GzrhoM,GzthM,Rrho,RrhoM,nummask)
 			for (size_t idx = Vo; idx < Vf; idx += step)
 			{
 				size_t X[3], idxPx, idxMx, idxPy, idxMy, idxPz, idxMz, idxP0, idxV0;
@@ -604,7 +604,7 @@ if (emask & EN_ENE){
 								KthM   += tmpS[1] + tmpS[3];
 
 								opCode(store_pd, tmpS, opCode(mul_pd,Frho,Mask));
-								RrhoM  +=  tmpS[0] + tmpS[2] + tmpS[4] + tmpS[6];
+								RrhoM  +=  tmpS[0] + tmpS[2];
 #else
 								opCode(store_pd, tmpS, opCode(mul_pd,tGx,Mask));
 								GxrhoM +=  tmpS[0];
@@ -643,6 +643,7 @@ if (emask & EN_ENE){
 		eRes[TH_POT] = Vth  *zQ;
 		eRes[RH_KIN] = Krho *.5*iR2;
 		eRes[TH_KIN] = Kth  *.5*iR2;
+		eRes[RH_RHO] = Rrho;
 
 		eRes[RH_GRXM] = GxrhoM*o2;
 		eRes[TH_GRXM] = GxthM *o2;
-- 
2.43.0


From 7fea837225a26d8e3c5fc53471916cfdbd7d5bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:08 +0000
Subject: [PATCH 11/82] fix: asking for energy totals only overwrote the
 auxiliary field with a map and was refused for low-memory saxions

---
 lib/energy/energy.cpp     | 10 +++++-----
 lib/energy/energyXeon.cpp |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/energy/energy.cpp b/lib/energy/energy.cpp
index 5b32730..8fb794e 100755
--- a/lib/energy/energy.cpp
+++ b/lib/energy/energy.cpp
@@ -60,7 +60,7 @@ void	Energy::runGpu	()
 	double R       = *field->RV();
 	double Rpp     = field->BckGnd()->Rp(*field->zV())*R;
 
-	const bool map = (mapmask & EN_MAP);
+	const bool map = (mapmask & EN_ONLYMAP);
 
 	switch (fType) {
 		case	FIELD_SAXION:
@@ -98,7 +98,7 @@ void	Energy::runGpu	()
 
 void	Energy::runCpu	()
 {
-	const bool map = (mapmask & EN_MAP); //Update if mask in theta is required FIX ME
+	const bool map = (mapmask & EN_ONLYMAP); //Update if mask in theta is required FIX ME
 
 	switch (fType) {
 		case	FIELD_SAXION:
@@ -136,7 +136,7 @@ using namespace profiler;
 
 void	energy	(Scalar *field, void *eRes, const EnType emap, const double shift)
 {
-	if ( (emap & EN_MAP) && (field->Field() == FIELD_SAXION) && field->LowMem())
+	if ( (emap & EN_ONLYMAP) && (field->Field() == FIELD_SAXION) && field->LowMem())
 	{
 		LogError ("Error: Can't compute energy map for saxion with lowmem kernels\n");
 		return;
@@ -209,7 +209,7 @@ void	energy	(Scalar *field, void *eRes, const EnType emap, const double shift)
 	prof.stop();
 
 	field->setReduced(false);
-	if (emap & EN_MAP) {
+	if (emap & EN_ONLYMAP) {
 		field->setM2     (M2_ENERGY);
 	}
 
@@ -217,7 +217,7 @@ void	energy	(Scalar *field, void *eRes, const EnType emap, const double shift)
 	double flops = (field->Field() == FIELD_SAXION ? (pot & (V_QCD1|V_QCDC) ? 111 : 112) : 25)*field->Size()*1e-9;
 	double bytes = 8.*field->DataSize()*field->Size()*1e-9;
 
-	if (emap & EN_MAP) {
+	if (emap & EN_ONLYMAP) {
 		eDark->appendName(" Map");
 		bytes *= 9./8;
 	}
diff --git a/lib/energy/energyXeon.cpp b/lib/energy/energyXeon.cpp
index 0e162f2..85b4b9b 100755
--- a/lib/energy/energyXeon.cpp
+++ b/lib/energy/energyXeon.cpp
@@ -452,7 +452,7 @@ LogMsg(VERB_PARANOID,"Sf %d Vt %d NN %d", Sf, Vt, NN);LogFlush();
 #else
 				tVp = opCode(shuffle_pd, mod, mCg, 0b00000001);
 #endif
-				if	(emask & EN_MAP) {
+				if	(emask & EN_ONLYMAP) {
 					mdv = opCode(add_pd,
 						opCode(add_pd,
 							opCode(mul_pd, tKp, opCode(mul_pd,hVec,ivZ2)), /* non-conformal kinetic energy */
@@ -1118,7 +1118,7 @@ if (emask & EN_ENE){
 #endif
 
 // Copy energy map to m2
-				if (emask & EN_MAP) {
+				if (emask & EN_ONLYMAP) {
 // Total energy
 					mdv = opCode(add_ps,
 						opCode(add_ps,
@@ -1357,7 +1357,7 @@ void	energyCpu	(Scalar *field, const double delta2, const double LL, const doubl
 	ppar.Vf    = ppar.Vo + field->Size();
 	ppar.Vt    = field->eSize();
 
-	const bool map  = (mapmask & EN_MAP);
+	const bool map  = (mapmask & EN_ONLYMAP);
 	const bool mask = (mapmask & EN_MASK);
 
 	// reset m2 because only the masked points will be plot
-- 
2.43.0


From 1f8581798a5034685edc371f5808ed01cb6334d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:43 +0000
Subject: [PATCH 12/82] fix: paxion gradient energy was divided by R^2 twice
 and its map landed past the auxiliary half for ghost widths above one

---
 lib/energy/energyPaxionXeon.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/energy/energyPaxionXeon.cpp b/lib/energy/energyPaxionXeon.cpp
index e01d4f6..18d917d 100644
--- a/lib/energy/energyPaxionXeon.cpp
+++ b/lib/energy/energyPaxionXeon.cpp
@@ -31,9 +31,9 @@ void	energyPaxionKernelXeon(const void * __restrict__ m_, const void * __restric
 {
 
 	const double R     = ppar.R;
-	const double ood2a = ppar.ood2a/R/R;
+	const double ood2a = ppar.ood2a;
 	const double beta  = ppar.beta;
-	const size_t Lx = ppar.Lx, Sf = Lx*Lx, Vo = ppar.Vo, Vf = ppar.Vf, Ng = ppar.Ng, Vh = Vf+Ng*Vo;
+	const size_t Lx = ppar.Lx, Sf = Lx*Lx, Vo = ppar.Vo, Vf = ppar.Vf, Ng = ppar.Ng, Vh = Vf+Vo;
 
 	double * __restrict__ eRes = (double * __restrict__) eRes_;
 	double gxC = 0., gyC = 0., gzC = 0., ntC = 0., ptC = 0.;
-- 
2.43.0


From 49b5303090fadce2a0e53e85c7d1c98b7194b0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:43 +0000
Subject: [PATCH 13/82] fix: density-contrast map gave the energy routine a
 result buffer that is too small

---
 lib/energy/dContrast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/energy/dContrast.cpp b/lib/energy/dContrast.cpp
index aabe1aa..4b60e4f 100755
--- a/lib/energy/dContrast.cpp
+++ b/lib/energy/dContrast.cpp
@@ -92,7 +92,7 @@ void	dContrast	(Scalar *axion, size_t &rSize, bool &rhoMap) {
 void	cDensityMap	(Scalar *axion, size_t rSize, bool rhoMap) {
 
 	if (axion->m2Status() != M2_ENERGY) {
-		double eRes[10];
+		double eRes[32];
 		energy(axion, eRes, EN_MAP, 0.);
 	}
 
-- 
2.43.0


From 8c6f0df091475d031bc83dc6b067cfeca8751df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:43 +0000
Subject: [PATCH 14/82] fix: low-memory saxion energy dropped the totals when
 masked energies were asked for too

---
 lib/energy/energyXeon.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/energy/energyXeon.cpp b/lib/energy/energyXeon.cpp
index 85b4b9b..3465e2e 100755
--- a/lib/energy/energyXeon.cpp
+++ b/lib/energy/energyXeon.cpp
@@ -1463,8 +1463,8 @@ break;
 #define CASE2_MULTIE_(pote2) \
 switch (mapmask){ \
 CASE2_(pote2,EN_ENE,EN_MAP) \
-CASE2_(pote2,EN_MASK,EN_ENEMASK) \
-CASE2_(pote2,EN_MAPMASK,EN_ENEMAPMASK) \
+CASE2_(pote2,EN_MASK,EN_MAPMASK) \
+CASE2_(pote2,EN_ENEMASK,EN_ENEMAPMASK) \
 }
 
 		switch (VQcd & V_TYPE) {
-- 
2.43.0


From 96995ab8cc05fa140684e8a6d6357baef4bbc3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 15/82] fix: double-precision paxion energy map assumed one
 ghost slice

---
 lib/energy/energyPaxionXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/energy/energyPaxionXeon.cpp b/lib/energy/energyPaxionXeon.cpp
index 18d917d..ea9542a 100644
--- a/lib/energy/energyPaxionXeon.cpp
+++ b/lib/energy/energyPaxionXeon.cpp
@@ -95,7 +95,7 @@ void	energyPaxionKernelXeon(const void * __restrict__ m_, const void * __restric
 					X[2] = tmi/YC;
 					X[1] = tmi - X[2]*YC;
 					X[0] = idx - tmi*XC;
-					X[2]--;	// Removes ghosts
+					X[2] -= Ng;	// Removes ghosts
 				}
 
 				if (X[0] == XC-step)
-- 
2.43.0


From 11168fa578803340e6b93ce12e7326b78ce04f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:12 +0000
Subject: [PATCH 16/82] fix: density-contrast map of the radial energy assumed
 one ghost slice

---
 lib/energy/dContrast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/energy/dContrast.cpp b/lib/energy/dContrast.cpp
index 4b60e4f..646aa98 100755
--- a/lib/energy/dContrast.cpp
+++ b/lib/energy/dContrast.cpp
@@ -56,7 +56,7 @@ void	dContrast	(Scalar *axion, size_t &rSize, bool &rhoMap) {
 	writeDensity(axion, MAP_THETA, eMax, eMin);
 
 	if (axion->Field() == FIELD_SAXION && rhoMap) {
-		m2 += axion->Size() + axion->Surf()*2;
+		m2 += axion->eSize();
 
 		eMax = find<FIND_MAX, Float>(m2, axion->rSize(), [] (Float x) { return (double) x; });
 		eMin = find<FIND_MIN, Float>(m2, axion->rSize(), [] (Float x) { return (double) x; });
-- 
2.43.0


From 2abee4ecef2071c5ccbe4f1f7a1a07ca26f69b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 17/82] fix: string and wall detection assumed one ghost slice

---
 lib/strings/stringXeon.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/strings/stringXeon.cpp b/lib/strings/stringXeon.cpp
index eab9ffc..05cc625 100755
--- a/lib/strings/stringXeon.cpp
+++ b/lib/strings/stringXeon.cpp
@@ -1046,5 +1046,7 @@ StringData	stringCpu	(Scalar *field)
 	const size_t V = field->Size();
 	field->exchangeGhosts(FIELD_M);
 	field->setSD(SD_MAP);
-	return (stringKernelXeon(field->mCpu(), field->Length(), field->Depth(), S, V+S, field->rLength(), field->rDepth(), field->Precision(), field->sData()));
+	// The kernel expects a single ghost slice in front of the lattice
+	const char *m = static_cast<const char *>(field->mStart()) - S*field->DataSize();
+	return (stringKernelXeon(m, field->Length(), field->Depth(), S, V+S, field->rLength(), field->rDepth(), field->Precision(), field->sData()));
 }
-- 
2.43.0


From e2de411470256cc69b6bffaedba60f1aa70a8bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 18/82] fix: derivatives of the scale factor ignored the matter
 correction

---
 lib/cosmos/cosmos.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/lib/cosmos/cosmos.cpp b/lib/cosmos/cosmos.cpp
index 632cc03..f8f2ad0 100644
--- a/lib/cosmos/cosmos.cpp
+++ b/lib/cosmos/cosmos.cpp
@@ -184,6 +184,9 @@ double  Cosmos::Rpp  (const double ct)
     // R''/R = frw(frw-1)/ct^2
   	//except in the case where frw = 0,1
   	rpp = frw*(frw-1.0)/(ct*ct) ;
+    // except with the matter correction, see R(ct)
+    if (frw == 1 && icdatastruc.grav > 0.0)
+      rpp = 0.5 * icdatastruc.grav / R(ct);
   }
 LogMsg(VERB_PARANOID,"[Cos:Rpp] Rpp %.2e ",rpp);
   return rpp;
@@ -200,6 +203,9 @@ double  Cosmos::Rp  (const double ct)
   // R = ct^frw
   // R'/R = frw/ct
 	rp = frw/(ct) ;
+  // except with the matter correction, see R(ct)
+  if (frw == 1 && icdatastruc.grav > 0.0)
+    rp = (1 + 0.5 * ct * icdatastruc.grav) / R(ct);
   LogMsg(VERB_PARANOID,"[Cos] Rp = %e ",rp);
   }
   return rp;
@@ -272,17 +278,17 @@ double  Cosmos::DAxionMass2Dct (const double ct)
     if (zThRes <= zRestore) /* mode restore */
     {
       if (RNow < zThRes)
-        dMass2 = nQcd*frw*AxionMass2(ct)/ct;
+        dMass2 = nQcd*Rp(ct)*AxionMass2(ct);
 
       if (RNow >= zThRes && RNow <= zRestore)
         dMass2 = 0;
 
       if (RNow > zRestore)
-        dMass2 = nQcdr*frw*AxionMass2(ct)/ct;
+        dMass2 = nQcdr*Rp(ct)*AxionMass2(ct);
 
     } else { /* mode saturate */
       if (RNow < zThRes)
-        dMass2 = nQcd*frw*AxionMass2(ct)/ct;
+        dMass2 = nQcd*Rp(ct)*AxionMass2(ct);
       else
         dMass2 = 0.0;
     }
@@ -306,19 +312,19 @@ double  Cosmos::DlogMARDlogct (const double ct)
     if (zThRes <= zRestore) /* mode restore */
     {
       if (RNow < zThRes)
-        dlmRlct = frw*(nQcd/2+1);
+        dlmRlct = ct*Rp(ct)*(nQcd/2+1);
 
       if (RNow >= zThRes && RNow <= zRestore)
-        dlmRlct = frw;
+        dlmRlct = ct*Rp(ct);
 
       if (RNow > zRestore)
-        dlmRlct = frw*(nQcdr/2+1);
+        dlmRlct = ct*Rp(ct)*(nQcdr/2+1);
 
     } else { /* mode saturate */
       if (RNow < zThRes)
-        dlmRlct = frw*(nQcd/2+1);
+        dlmRlct = ct*Rp(ct)*(nQcd/2+1);
       else
-        dlmRlct = frw;
+        dlmRlct = ct*Rp(ct);
     }
 
 LogMsg(VERB_PARANOID,"[Cos:] DlogMARDlogct %.2e ",dlmRlct);
-- 
2.43.0


From f3d044195b1ee27428a5419ab3b8d099541c1424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 19/82] fix: time integrals of the axion mass after saturation

---
 lib/scalar/scalarField.cpp | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 3165347..ba02439 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -1226,6 +1226,8 @@ double	Scalar::IAxionMassSqn(double z0, double z, int nn) {
 	double &zRestore = bckgnd->ZRestore();
 	double &indi3    = bckgnd->Indi3();
 	double &nQcd     = bckgnd->QcdExp();
+	// mass saturates at its value at zThRes
+	double indi3Sat  = indi3*pow(zThRes, 0.5*(bckgnd->Frw())*nQcd);
 
 	// assume zrestore is infty
 	// exponent of the time integral
@@ -1239,12 +1241,12 @@ double	Scalar::IAxionMassSqn(double z0, double z, int nn) {
 			double exponent = (bckgnd->Frw())*(nQcd+nn) +1;
 			double inte = (pow(zThRes, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
 			exponent = (bckgnd->Frw())*(nn) +1;
-			inte += (pow(z, exponent)-pow(zThRes, exponent))*indi3*indi3/(exponent);
+			inte += (pow(z, exponent)-pow(zThRes, exponent))*indi3Sat*indi3Sat/(exponent);
 			return inte;
 		}
 		if ( z > zThRes && (z0 >= zThRes)){
 			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(z, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
+			double inte = (pow(z, exponent)-pow(z0, exponent))*indi3Sat*indi3Sat/(exponent);
 			return inte;
 		}
 	} else {
@@ -1255,14 +1257,14 @@ double	Scalar::IAxionMassSqn(double z0, double z, int nn) {
 		}
 		if ( (z0 > zThRes) && (z < zThRes)){
 			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(zThRes, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
+			double inte = (pow(zThRes, exponent)-pow(z0, exponent))*indi3Sat*indi3Sat/(exponent);
 			exponent = (bckgnd->Frw())*(nQcd+nn) +1;
 			inte += (pow(z, exponent)-pow(zThRes, exponent))*indi3*indi3/(exponent);
 			return inte;
 		}
 		if ( z0 > zThRes && (z >= zThRes)){
 			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(z, exponent)-pow(z0, exponent))*indi3*indi3/(exponent);
+			double inte = (pow(z, exponent)-pow(z0, exponent))*indi3Sat*indi3Sat/(exponent);
 			return inte;
 		}
 	}
@@ -1278,6 +1280,8 @@ double	Scalar::IIAxionMassSqn(double z0, double z, int nn) {
 	double &zRestore = bckgnd->ZRestore();
 	double &indi3    = bckgnd->Indi3();
 	double &nQcd     = bckgnd->QcdExp();
+	// mass saturates at its value at zThRes
+	double indi3Sat  = indi3*pow(zThRes, 0.5*(bckgnd->Frw())*nQcd);
 
 	// assume zrestore is infty
 	// exponent of the time integral
@@ -1291,16 +1295,17 @@ double	Scalar::IIAxionMassSqn(double z0, double z, int nn) {
 		if ( (z > zThRes) && (z0 < zThRes)){
 			double exponent = (bckgnd->Frw())*(nQcd+nn) +1;
 			double inte = (pow(zThRes, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(z0, exponent)*(zThRes-z0)*indi3*indi3/(exponent);
+										- pow(z0, exponent)*(zThRes-z0)*indi3*indi3/(exponent)
+										+ (pow(zThRes, exponent)-pow(z0, exponent))*(z-zThRes)*indi3*indi3/(exponent);
 			exponent = (bckgnd->Frw())*(nn) +1;
-			inte += (pow(z, exponent+1)-pow(zThRes, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(zThRes, exponent)*(z-zThRes)*indi3*indi3/(exponent);
+			inte += (pow(z, exponent+1)-pow(zThRes, exponent+1))*indi3Sat*indi3Sat/(exponent*(exponent+1))
+										- pow(zThRes, exponent)*(z-zThRes)*indi3Sat*indi3Sat/(exponent);
 			return inte;
 		}
 		if ( z > zThRes && (z0 >= zThRes)){
 			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(z, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(z0, exponent)*(z-z0)*indi3*indi3/(exponent);
+			double inte = (pow(z, exponent+1)-pow(z0, exponent+1))*indi3Sat*indi3Sat/(exponent*(exponent+1))
+										- pow(z0, exponent)*(z-z0)*indi3Sat*indi3Sat/(exponent);
 			return inte;
 		}
 	} else {
@@ -1312,8 +1317,9 @@ double	Scalar::IIAxionMassSqn(double z0, double z, int nn) {
 		}
 		if ( (z0 > zThRes) && (z < zThRes)){
 			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(zThRes, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(z0, exponent)*(zThRes-z0)*indi3*indi3/(exponent);
+			double inte = (pow(zThRes, exponent+1)-pow(z0, exponent+1))*indi3Sat*indi3Sat/(exponent*(exponent+1))
+										- pow(z0, exponent)*(zThRes-z0)*indi3Sat*indi3Sat/(exponent)
+										+ (pow(zThRes, exponent)-pow(z0, exponent))*(z-zThRes)*indi3Sat*indi3Sat/(exponent);
 			exponent = (bckgnd->Frw())*(nQcd+nn) +1;
 			inte += (pow(z, exponent+1)-pow(zThRes, exponent+1))*indi3*indi3/(exponent*(exponent+1))
 										- pow(zThRes, exponent)*(z-zThRes)*indi3*indi3/(exponent);
@@ -1321,8 +1327,8 @@ double	Scalar::IIAxionMassSqn(double z0, double z, int nn) {
 		}
 		if ( z > zThRes && (z0 >= zThRes)){
 			double exponent = (bckgnd->Frw())*(nn) +1;
-			double inte = (pow(z, exponent+1)-pow(z0, exponent+1))*indi3*indi3/(exponent*(exponent+1))
-										- pow(z0, exponent)*(z-z0)*indi3*indi3/(exponent);
+			double inte = (pow(z, exponent+1)-pow(z0, exponent+1))*indi3Sat*indi3Sat/(exponent*(exponent+1))
+										- pow(z0, exponent)*(z-z0)*indi3Sat*indi3Sat/(exponent);
 			return inte;
 		}
 	}
-- 
2.43.0


From c3e6797959abdeb99e1d48fed322a49fc89cfea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 20/82] fix: time step across mass saturation ignored the
 matter correction

---
 lib/scalar/scalarField.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index ba02439..9309c22 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -1404,7 +1404,12 @@ double	Scalar::dzSize	   (double zNow) {
 			// dct = pow(bckgnd->ZThRes(),1.0/bckgnd->Frw()) - zNow;
 			/* Rather, go a ministep ahead */
 			double zNext = zNow + dct;
-			dct = pow(bckgnd->ZThRes()+ 0.001*(RNext-bckgnd->ZThRes()),1.0/bckgnd->Frw()) - zNow;
+			double RTgt = bckgnd->ZThRes()+ 0.001*(RNext-bckgnd->ZThRes());
+			double grav = bckgnd->ICData().grav;
+			if (bckgnd->Frw() == 1 && grav > 0.0)	/* see Cosmos::R */
+				dct = 2.0*RTgt/(1.0 + std::sqrt(1.0 + grav*RTgt)) - zNow;
+			else
+				dct = pow(RTgt,1.0/bckgnd->Frw()) - zNow;
 			LogMsg(VERB_PARANOID,"[sca:ct] >> dct decreased to %e just jump over Rc [ct,ct_Next,ct+sct]",dct, zNow, zNext,zNow+dct);
 		}
 	LogMsg(VERB_HIGH,"[sca:ct] dct = %e ct = %e",dct,zNow);
-- 
2.43.0


From 9ac91d78a32836600bc1fc74644967072926fddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:00 +0000
Subject: [PATCH 21/82] fix: axion mass integrals compared times with a scale
 factor

---
 lib/scalar/scalarField.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 9309c22..6b37a06 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -1222,7 +1222,8 @@ double	Scalar::IAxionMassSqn(double z0, double z, int nn) {
 
 	double aMass;
 	double RNow      = *RV();
-	double &zThRes   = bckgnd->ZThRes();
+	// saturation time, ZThRes is a scale factor
+	double zThRes    = bckgnd->Frw() == 0.0 ? bckgnd->ZThRes() : pow(bckgnd->ZThRes(), 1.0/bckgnd->Frw());
 	double &zRestore = bckgnd->ZRestore();
 	double &indi3    = bckgnd->Indi3();
 	double &nQcd     = bckgnd->QcdExp();
@@ -1276,7 +1277,8 @@ double	Scalar::IIAxionMassSqn(double z0, double z, int nn) {
 
 	double aMass;
 	double RNow      = *RV();
-	double &zThRes   = bckgnd->ZThRes();
+	// saturation time, ZThRes is a scale factor
+	double zThRes    = bckgnd->Frw() == 0.0 ? bckgnd->ZThRes() : pow(bckgnd->ZThRes(), 1.0/bckgnd->Frw());
 	double &zRestore = bckgnd->ZRestore();
 	double &indi3    = bckgnd->Indi3();
 	double &nQcd     = bckgnd->QcdExp();
-- 
2.43.0


From 8e698435839b67a856c8095f6beee4bfea16ccbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:41 +0000
Subject: [PATCH 22/82] fix: rescaling a real field or a velocity overran its
 buffer

---
 lib/scalar/scaleXeon.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/scalar/scaleXeon.cpp b/lib/scalar/scaleXeon.cpp
index fdd82b5..80eaa47 100644
--- a/lib/scalar/scaleXeon.cpp
+++ b/lib/scalar/scaleXeon.cpp
@@ -5,6 +5,18 @@
 
 using namespace std;
 
+/*	Number of complex elements to scale. Real fields take half of the space,
+	and v has no ghosts unless it belongs to a paxion field. m2 is always complex	*/
+static size_t	scaleVol (Scalar *sField, FieldIndex fIdx)
+{
+	if (fIdx == FIELD_M2)
+		return	sField->eSize();
+
+	const size_t vol = ((fIdx == FIELD_V) && (sField->Field() != FIELD_PAXION)) ? sField->Size() : sField->eSize();
+
+	return	vol*sField->DataSize()/(2*sField->Precision());
+}
+
 void	scaleXeon (Scalar *sField, FieldIndex fIdx, double factor)
 {
 	switch (sField->Precision())
@@ -12,7 +24,7 @@ void	scaleXeon (Scalar *sField, FieldIndex fIdx, double factor)
 		case FIELD_DOUBLE:
 		{
 			complex<double> *field;
-			size_t vol = sField->eSize();
+			size_t vol = scaleVol(sField, fIdx);
 
 			switch (fIdx)
 			{
@@ -50,7 +62,7 @@ void	scaleXeon (Scalar *sField, FieldIndex fIdx, double factor)
 		{
 			complex<float> *field;
 			float  fac = factor;
-			size_t vol = sField->eSize();
+			size_t vol = scaleVol(sField, fIdx);
 
 			switch (fIdx)
 			{
-- 
2.43.0


From 8ae37aa4a021f4da5143fef35b36228cc839ae48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 23/82] fix: angle conversions assumed R proportional to
 conformal time

---
 lib/scalar/theta2CmplxXeon.cpp | 8 ++++----
 lib/scalar/thetaXeon.cpp       | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/scalar/theta2CmplxXeon.cpp b/lib/scalar/theta2CmplxXeon.cpp
index b948dce..52ffdf5 100644
--- a/lib/scalar/theta2CmplxXeon.cpp
+++ b/lib/scalar/theta2CmplxXeon.cpp
@@ -22,7 +22,7 @@ void	th2cxXeon (Scalar *sField)
 			complex<double> II = complex<double>{0,1};
 			size_t vol = sField->Size();
 			double r = *sField->RV();
-			double ir = 1/r;
+			double ir = sField->BckGnd()->Rp(*sField->zV());	// R'/R
 
 			// The real part of m field has theta already normalised
 			field = static_cast<complex<double>*> (sField->mStart());
@@ -33,7 +33,7 @@ void	th2cxXeon (Scalar *sField)
 			for (size_t lpc = 0; lpc < vol; lpc++)
 			{
 				field[lpc] = r*exp(II*real(field[lpc]));
-				// asumes rho' = 0
+				// assumes that the modulus is R
 				field2[lpc] = field[lpc]*(ir+II*real(field2[lpc]));
 			}
 			break;
@@ -46,7 +46,7 @@ void	th2cxXeon (Scalar *sField)
 			complex<float> II = complex<float>{0,1};
 			size_t vol = sField->Size();
 			float r = *sField->RV();
-			float ir = 1/r;
+			float ir = sField->BckGnd()->Rp(*sField->zV());	// R'/R
 
 			// The real part of m field has theta already normalised
 			field = static_cast<complex<float>*> (sField->mStart());
@@ -57,7 +57,7 @@ void	th2cxXeon (Scalar *sField)
 			for (size_t lpc = 0; lpc < vol; lpc++)
 			{
 				field[lpc] = r*exp(II*real(field[lpc]));
-				// asumes rho' = 0
+				// assumes that the modulus is R
 				field2[lpc] = field[lpc]*(ir + II*real(field2[lpc]));
 			}
 
diff --git a/lib/scalar/thetaXeon.cpp b/lib/scalar/thetaXeon.cpp
index 9ead872..da60b82 100644
--- a/lib/scalar/thetaXeon.cpp
+++ b/lib/scalar/thetaXeon.cpp
@@ -30,7 +30,7 @@ void	toThetaKernelXeon (Scalar *sField, const Float shift)
 
 	const Float z = static_cast<Float>(sField->zV()[0]);
 	const Float R = static_cast<Float>(sField->RV()[0]);
-	const Float F = static_cast<Float>(sField->BckGnd()->Frw())*R/z;
+	const Float F = static_cast<Float>(sField->BckGnd()->Rp(z))*R;	// the scale factor need not be a power of time
 
 	for (size_t cZ = 0; cZ < Lz; cZ++)
 	{
-- 
2.43.0


From 9611297c06f8ead45542372c79d0d7a8a6e3f0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 24/82] fix: axion to paxion envelope had wrong powers of the
 scale factor

---
 lib/scalar/theta2PaxionXeon.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/scalar/theta2PaxionXeon.cpp b/lib/scalar/theta2PaxionXeon.cpp
index e5c7b7b..f0e98a3 100644
--- a/lib/scalar/theta2PaxionXeon.cpp
+++ b/lib/scalar/theta2PaxionXeon.cpp
@@ -15,15 +15,15 @@ void	th2PaxionXeon (Scalar *sField)
 		const size_t S  = sField->Surf();
 
 		double mA    = sField->AxionMass();
-		double R2    = (*sField->RV())*(*sField->RV());
-		double ct    = (*sField->zV());
-		double frw   = (sField->BckGnd()->Frw());
+		double R     = (*sField->RV());
+		double Rp    = sField->BckGnd()->Rp(*sField->zV());	// R'/R
 		double mA2   = (sField->AxionMassSq());
 		double DmA2ct= sField->BckGnd()->DAxionMass2Dct(*sField->zV());
 
 		Float sqcms1 = (Float) sqrt(0.5*mA*(*sField->RV()));
 		Float sqcms2 = (Float) sqrt(2.0*mA*(*sField->RV()));
-		Float adiab  = (Float) (DmA2ct + 2*frw*mA2*R2/ct)/(4*mA2*mA) ;
+		// (m^2)'/(4m^3) with the conformal mass m = mA*R
+		Float adiab  = (Float) ((DmA2ct + 2*mA2*Rp)/(4*mA2*mA*R)) ;
 		Float *cfield = static_cast<Float*> (sField->mStart());
 		Float *cveloc = static_cast<Float*> (sField->vCpu());
 		Float *faxion = static_cast<Float*> (sField->m2Cpu());
-- 
2.43.0


From ef4ef31d658f44911d8bdbefd4e6c3caf62bcf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:25 +0000
Subject: [PATCH 25/82] fix: mending theta jumped velocities by the wrong
 amount and stored to unaligned buffers

---
 lib/scalar/mendThetaXeon.cpp | 55 ++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/lib/scalar/mendThetaXeon.cpp b/lib/scalar/mendThetaXeon.cpp
index 9f229fc..9fa0dba 100755
--- a/lib/scalar/mendThetaXeon.cpp
+++ b/lib/scalar/mendThetaXeon.cpp
@@ -36,7 +36,7 @@
 
 /* Uses m2 as aux field to store F and B on a line/line basis
 distribution is n-th thread nth 4 lines of m2 */
-inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, void * __restrict__ m2_, void * __restrict__ s_, const double R, const size_t Lx, const size_t Lz, const size_t Sf, FieldPrecision precision)
+inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, void * __restrict__ m2_, void * __restrict__ s_, const double R, const double Rp, const size_t Lx, const size_t Lz, const size_t Sf, FieldPrecision precision)
 {
 	size_t countF = 0;
 	size_t countB = 0;
@@ -80,7 +80,7 @@ inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v
 
 		const _MData_ pVec  = opCode(set1_pd, +zP);
 		const _MData_ mVec  = opCode(set1_pd, -zP);
-		const _MData_ vVec  = opCode(set1_pd, 2.*M_PI);
+		const _MData_ vVec  = opCode(set1_pd, 2.*M_PI*Rp);
 		const _MData_ cVec  = opCode(set1_pd, zP*2.);
 
 		#pragma omp parallel default(shared) reduction(+:countF,countB,count)
@@ -197,9 +197,9 @@ inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v
 						}
 #else
 						long mask = 0;
-						long msk[step];
+						alignas(Align) long msk[step];
 						long maskB = 0;
-						long mskB[step];
+						alignas(Align) long mskB[step];
 	#ifdef	__AVX__
 						mDp = opCode(cmp_pd, mDf, pVec, _CMP_GE_OQ);
 						mDm = opCode(cmp_pd, mDf, mVec, _CMP_LT_OQ);
@@ -332,7 +332,7 @@ inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v
 						1 if F = B (will mend)
 						0 if F!= B (will not mend) */
 						long mask = 0;
-						long msk[step];
+						alignas(Align) long msk[step];
 #ifdef	__AVX512F__
 						auto pMask = opCode(cmp_pd_mask, mPx, mBMx, _CMP_EQ_OQ);
 						// auto mMask = opCode(cmp_pd_mask, mPx, mBMx, _CMP_NEQ_OQ);
@@ -359,7 +359,7 @@ inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v
 						/* store if necessary */
 						if (mask >0){
 							// double mm[step], mvB[step];
-							double vv[step], mvF[step];
+							alignas(Align) double vv[step], mvF[step];
 							// opCode(store_pd, static_cast<double*>(static_cast<void*>(mm)), mel);
 							opCode(store_pd, static_cast<double*>(static_cast<void*>(mvF)), mPx);
 							// opCode(store_pd, static_cast<double*>(static_cast<void*>(mvB)), mBMx);
@@ -433,7 +433,7 @@ inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v
 
 		const _MData_ pVec  = opCode(set1_ps, +zP);
 		const _MData_ mVec  = opCode(set1_ps, -zP);
-		const _MData_ vVec  = opCode(set1_ps, 2.f*M_PI);
+		const _MData_ vVec  = opCode(set1_ps, (float) (2.*M_PI*Rp));
 		const _MData_ cVec  = opCode(set1_ps, zP*2.f);
 
 		#pragma omp parallel default(shared) reduction(+:countF,countB,count)
@@ -567,9 +567,9 @@ inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v
 						}
 #else
 						int mask = 0;
-						int msk[step];
+						alignas(Align) int msk[step];
 						int maskB = 0;
-						int mskB[step];
+						alignas(Align) int mskB[step];
 	#ifdef	__AVX__
 						mDp = opCode(cmp_ps, mDf, pVec, _CMP_GE_OQ);
 						mDm = opCode(cmp_ps, mDf, mVec, _CMP_LT_OQ);
@@ -720,7 +720,7 @@ inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v
 							1 if F = B (will mend)
 							0 if F!= B (will not mend) */
 							int mask = 0;
-							int msk[step] = {0};
+							alignas(Align) int msk[step] = {0};
 	#ifdef	__AVX512F__
 							auto pMask = opCode(cmp_ps_mask, mPx, mBMx, _CMP_EQ_OQ);
 							//auto mMask  = opCode(cmp_ps_mask, mPx, mBMx, _CMP_NEQ_OQ);
@@ -746,15 +746,15 @@ inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v
 
 							/* store if necessary */
 							if (mask >0){
-								float mm[step], mvB[step];
-								float vv[step], mvF[step], vvF[step];
+								alignas(Align) float mm[step], mvB[step];
+								alignas(Align) float vv[step], mvF[step], vvF[step];
 								opCode(store_ps, static_cast<float*>(static_cast<void*>(mm)), mel);
 								opCode(store_ps, static_cast<float*>(static_cast<void*>(mvF)), mPx);
 								opCode(store_ps, static_cast<float*>(static_cast<void*>(mvB)), mBMx);
 								opCode(store_ps, static_cast<float*>(static_cast<void*>(vv)), vPx);
 								mDf  = opCode(load_ps, &m2[idx2+XC]);                                  // we have saved corrected v here
 								opCode(store_ps, static_cast<float*>(static_cast<void*>(vvF)), mDf);
-								float para[step], noia[step];
+								alignas(Align) float para[step], noia[step];
 								mDp  = opCode(load_ps, &m2[idx2-step]);
 								opCode(store_ps, static_cast<float*>(static_cast<void*>(para)), mDp);
 								mDc  = opCode(load_ps, &m2[idx2+step]);	
@@ -825,7 +825,7 @@ inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v
 
 
 template<typename Float, const int step>
-inline  size_t	mendThetaSlice(Float * __restrict__ m, Float * __restrict__ v, Float * __restrict__ m2, const double R, const size_t Lx, const size_t Lz, const size_t Sf, size_t NN)
+inline  size_t	mendThetaSlice(Float * __restrict__ m, Float * __restrict__ v, Float * __restrict__ m2, const double R, const double Rp, const size_t Lx, const size_t Lz, const size_t Sf, size_t NN)
 {
 	const double zP = M_PI*R;
 	size_t countF = 0;
@@ -905,11 +905,11 @@ inline  size_t	mendThetaSlice(Float * __restrict__ m, Float * __restrict__ v, Fl
 				{
 					if (mDf > zP) {
 						mPy -= 2.*zP;
-						vPy -= 2.*M_PI;
+						vPy -= 2.*M_PI*Rp;
 						countF++;
 					} else if (mDf < zP) {
 						mPy += 2.*zP;
-						vPy += 2.*M_PI;
+						vPy += 2.*M_PI*Rp;
 						countF++;
 					}
 
@@ -926,11 +926,11 @@ inline  size_t	mendThetaSlice(Float * __restrict__ m, Float * __restrict__ v, Fl
 				{
 					if (mDfB > zP) {
 						melB -= 2.*zP;
-						vPyB -= 2.*M_PI;
+						vPyB -= 2.*M_PI*Rp;
 						countB++;
 					} else if (mDfB < zP) {
 						melB += 2.*zP;
-						vPyB += 2.*M_PI;
+						vPyB += 2.*M_PI*Rp;
 						countB++;
 					}
 
@@ -997,7 +997,7 @@ inline  size_t	mendThetaSlice(Float * __restrict__ m, Float * __restrict__ v, Fl
 /* TODO iterate until a jumpless line is found */
 
 template<typename Float>
-inline  size_t	mendThetaLine(Float * __restrict__ m, Float * __restrict__ v, const double R, const size_t Lz, const size_t Sf, size_t NN)
+inline  size_t	mendThetaLine(Float * __restrict__ m, Float * __restrict__ v, const double R, const double Rp, const size_t Lz, const size_t Sf, size_t NN)
 {
 	const double zP = M_PI*R;
 	size_t count = 0;
@@ -1056,11 +1056,11 @@ inline  size_t	mendThetaLine(Float * __restrict__ m, Float * __restrict__ v, con
 				while (abs(mDf) > zP) {
 					if (mDf > zP) {
 						mPz -= 2.*zP;
-						vPz -= 2.*M_PI;
+						vPz -= 2.*M_PI*Rp;
 						count++;
 					} else {
 						mPz += 2.*zP;
-						vPz += 2.*M_PI;
+						vPz += 2.*M_PI*Rp;
 						count++;
 					}
 
@@ -1081,30 +1081,31 @@ size_t	mendThetaXeon (Scalar *field)
 	constexpr int	dStep = Align/sizeof(double);
 	constexpr int	fStep = Align/sizeof(float);
 	const double	R     = *(field->RV());
+	const double	Rp    = R*field->BckGnd()->Rp(*(field->zV()));	// a jump by 2pi in theta is 2pi R' in (R theta)'
 	size_t		tJmp = 0;
 	unsigned long tota = 0;
 
 	switch (field->Precision()) {
 		case	FIELD_DOUBLE:
-		tJmp += mendThetaLine(static_cast<double*>(field->mCpu()), static_cast<double*>(field->vCpu()), R, field->Depth(), field->Surf(), field->getNg());
+		tJmp += mendThetaLine(static_cast<double*>(field->mCpu()), static_cast<double*>(field->vCpu()), R, Rp, field->Depth(), field->Surf(), field->getNg());
 		MPI_Allreduce(&tJmp, &tota, 1, MPI_UNSIGNED_LONG, MPI_SUM, MPI_COMM_WORLD);
 		LogMsg(VERB_HIGH,"[mT] line %lu jumps",tota);
-		tJmp += mendThetaSlice<double, dStep>(static_cast<double*>(field->mCpu()), static_cast<double*>(field->vCpu()),static_cast<double*>(field->m2Cpu()),  R, field->Length(), field->Depth(), field->Surf(), field->getNg());
+		tJmp += mendThetaSlice<double, dStep>(static_cast<double*>(field->mCpu()), static_cast<double*>(field->vCpu()),static_cast<double*>(field->m2Cpu()),  R, Rp, field->Length(), field->Depth(), field->Surf(), field->getNg());
 		MPI_Allreduce(&tJmp, &tota, 1, MPI_UNSIGNED_LONG, MPI_SUM, MPI_COMM_WORLD);
 		LogMsg(VERB_HIGH,"[mT] Slice %lu jumps",tota);
 		if (tJmp > 0) LogMsg(VERB_HIGH,"[mT] Warnng: jumps in line/slice are not safe!");
-		tJmp += mendThetaKernelXeon(field->mStart(), field->vCpu(), field->m2Cpu(), field->sData(), R, field->Length(), field->Depth(), field->Surf(), field->Precision());
+		tJmp += mendThetaKernelXeon(field->mStart(), field->vCpu(), field->m2Cpu(), field->sData(), R, Rp, field->Length(), field->Depth(), field->Surf(), field->Precision());
 		break;
 
 		case	FIELD_SINGLE:
-		tJmp += mendThetaLine(static_cast<float *>(field->mCpu()), static_cast<float *>(field->vCpu()), R, field->Depth(), field->Surf(), field->getNg());
+		tJmp += mendThetaLine(static_cast<float *>(field->mCpu()), static_cast<float *>(field->vCpu()), R, Rp, field->Depth(), field->Surf(), field->getNg());
 		MPI_Allreduce(&tJmp, &tota, 1, MPI_UNSIGNED_LONG, MPI_SUM, MPI_COMM_WORLD);
 		LogMsg(VERB_HIGH,"[mT] line %lu jumps",tota);
-		tJmp += mendThetaSlice<float, fStep>(static_cast<float *>(field->mCpu()), static_cast<float *>(field->vCpu()), static_cast<float *>(field->m2Cpu()), R, field->Length(), field->Depth(), field->Surf(), field->getNg());
+		tJmp += mendThetaSlice<float, fStep>(static_cast<float *>(field->mCpu()), static_cast<float *>(field->vCpu()), static_cast<float *>(field->m2Cpu()), R, Rp, field->Length(), field->Depth(), field->Surf(), field->getNg());
 		MPI_Allreduce(&tJmp, &tota, 1, MPI_UNSIGNED_LONG, MPI_SUM, MPI_COMM_WORLD);
 		LogMsg(VERB_HIGH,"[mT] Slice %lu jumps",tota);
 		if (tJmp > 0) LogMsg(VERB_HIGH,"[mT] Warnng: jumps in line/slice are not safe!");
-		tJmp += mendThetaKernelXeon(field->mStart(), field->vCpu(), field->m2Cpu(), field->sData(), R, field->Length(), field->Depth(), field->Surf(), field->Precision());
+		tJmp += mendThetaKernelXeon(field->mStart(), field->vCpu(), field->m2Cpu(), field->sData(), R, Rp, field->Length(), field->Depth(), field->Surf(), field->Precision());
 		break;
 
 		default:
-- 
2.43.0


From f4bf05b06d1b54d0671302404061a5a231af8911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 26/82] fix: linear axion potential spectrum swapped the
 arguments of atan2

---
 lib/utils/kgvops.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/utils/kgvops.cpp b/lib/utils/kgvops.cpp
index 510f51f..6e68388 100644
--- a/lib/utils/kgvops.cpp
+++ b/lib/utils/kgvops.cpp
@@ -912,7 +912,7 @@ void buildc_v(Scalar *field, PadIndex pi, Float zaskaFF)
 					case SPMASK_FLAT:
 								// m2sa[odx]  = Rscale*std::sqrt(2*(1-da[0]/std::sqrt(da[0]*da[0]+da[1]*da[1])));
 								m2sa[odx]  = 2.*Rscale * std::sin(0.5*std::atan2(da[1],da[0]));
-								m2sax[odx] = Rscale   * std::atan2(da[0],da[1]);
+								m2sax[odx] = Rscale   * std::atan2(da[1],da[0]);
 							break;
 					case SPMASK_REDO:
 					case SPMASK_BALL:
@@ -921,7 +921,7 @@ void buildc_v(Scalar *field, PadIndex pi, Float zaskaFF)
 										m2sax[odx]= 0 ; }
 								else {
 										m2sa[odx] = 2.*Rscale * std::sin(0.5*std::atan2(da[1],da[0]));
-										m2sax[odx] = Rscale*std::atan2(da[0],da[1]); }
+										m2sax[odx] = Rscale*std::atan2(da[1],da[0]); }
 							break;
 					case SPMASK_GAUS:
 					case SPMASK_DIFF:
@@ -931,12 +931,12 @@ void buildc_v(Scalar *field, PadIndex pi, Float zaskaFF)
 					case SPMASK_VIL: {
 								Float mskk = std::sqrt(da[0]*da[0]+da[1]*da[1])/Rscale;
 								m2sa[odx]  = mskk*2.*Rscale * std::sin(0.5*std::atan2(da[1],da[0]));
-								m2sax[odx] = mskk*Rscale*std::atan2(da[0],da[1]); }
+								m2sax[odx] = mskk*Rscale*std::atan2(da[1],da[0]); }
 							break;
 					case SPMASK_VIL2: {
 								Float mskk = (da[0]*da[0]+da[1]*da[1])/Rscale/Rscale;
 								m2sa[odx]  = mskk*2.*Rscale * std::sin(0.5*std::atan2(da[1],da[0]));
-								m2sax[odx] = mskk*Rscale*std::atan2(da[0],da[1]); }
+								m2sax[odx] = mskk*Rscale*std::atan2(da[1],da[0]); }
 							break;
 				} //end mask
 			}
-- 
2.43.0


From 8e56423e5b46a87fcf6450785298f2374e52bf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 27/82] fix: uncorrected potential spectrum read the field one
 slice before its string mask

---
 lib/spectrum/spectrum.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/spectrum/spectrum.cpp b/lib/spectrum/spectrum.cpp
index a35c7c5..e80449b 100755
--- a/lib/spectrum/spectrum.cpp
+++ b/lib/spectrum/spectrum.cpp
@@ -1205,8 +1205,8 @@ void	SpecBin::nRun	(nRunType nrt) {
 					#pragma omp parallel for schedule(static)
 					for (size_t iz=0; iz < Lz; iz++) {
 						size_t zo = Ly*(Ly+2)*iz ;
-						size_t zi = Ly*Ly*iz ;
-						size_t zp = Ly*Ly*(iz+1) ;
+						size_t zi = LyLy*(iz+1) ;
+						size_t zp = LyLy*(iz+2) ;
 						for (size_t iy=0; iy < Ly; iy++) {
 							size_t yo = (Ly+2)*iy ;
 							size_t yi = Ly*iy ;
@@ -1225,7 +1225,7 @@ void	SpecBin::nRun	(nRunType nrt) {
 											m2sa[odx] = mass*Rscale*std::arg(ma[idx]-zaskaF);
 											break;
 									case SPMASK_REDO:
-											if (strdaa[idx] & STRING_MASK){
+											if (strdaa[idx-LyLy] & STRING_MASK){
 													m2sa[odx] = 0 ;
 											}
 											else{
-- 
2.43.0


From a897bafc6c5944a90640e0b0925ab38645de6072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:55 +0000
Subject: [PATCH 28/82] fix: masked z-gradient spectrum was unpadded instead of
 padded before its transform

---
 lib/spectrum/spectrum.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/spectrum/spectrum.cpp b/lib/spectrum/spectrum.cpp
index e80449b..9c82d70 100755
--- a/lib/spectrum/spectrum.cpp
+++ b/lib/spectrum/spectrum.cpp
@@ -1318,7 +1318,7 @@ void	SpecBin::nRun	(nRunType nrt) {
 						prof.stop();
 							prof.add(std::string("memmove"), 0.0, 0.0);
 
-					/* unpad m2 in place if SPMASK_GAUS/DIFF */
+					/* pad m2 in place if SPMASK_GAUS/DIFF (from the end, rows move up) */
 
 						if (mask & (SPMASK_GAUS|SPMASK_DIFF)){
 								prof.start();
@@ -1326,13 +1326,13 @@ void	SpecBin::nRun	(nRunType nrt) {
 							size_t pl = (Ly+2)*field->Precision();
 							size_t ss	= Ly*Lz;
 
-							for (size_t sl=1; sl<LyLz; sl++) {
+							for (size_t sl=LyLz-1; sl>0; sl--) {
 								size_t	oOff = sl*dl;
 								size_t	fOff = sl*pl;
-								memmove	(m2C+oOff, m2C+fOff, dl);
+								memmove	(m2C+fOff, m2C+oOff, dl);
 								}
 							prof.stop();
-								prof.add(std::string("unpad"), 0.0, 0.0);
+								prof.add(std::string("pad"), 0.0, 0.0);
 						}
 
 
@@ -1535,21 +1535,21 @@ void	SpecBin::nRun	(nRunType nrt) {
 						prof.stop();
 							prof.add(std::string("memmove"), 0.0, 0.0);
 
-					/* unpad m2 in place if SPMASK_GAUS/DIFF */
+					/* pad m2 in place if SPMASK_GAUS/DIFF (from the end, rows move up) */
 							prof.start();
 						if (mask & (SPMASK_GAUS|SPMASK_DIFF)){
 							size_t dl = Ly*field->Precision();
 							size_t pl = (Ly+2)*field->Precision();
 							size_t ss	= Ly*Lz;
 
-							for (size_t sl=1; sl<LyLz; sl++) {
+							for (size_t sl=LyLz-1; sl>0; sl--) {
 								size_t	oOff = sl*dl;
 								size_t	fOff = sl*pl;
-								memmove	(m2C+oOff, m2C+fOff, dl);
+								memmove	(m2C+fOff, m2C+oOff, dl);
 								}
 						}
 						prof.stop();
-							prof.add(std::string("unpad"), 0.0, 0.0);
+							prof.add(std::string("pad"), 0.0, 0.0);
 
 						LogMsg(VERB_HIGH,"[nRun] FFT") ;
 							prof.start();
-- 
2.43.0


From b0aa732b4924bb3728adcf08d9b0ba175aff9269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:21 +0000
Subject: [PATCH 29/82] fix: string velocity correction interpolated its table
 with the wrong strides

---
 lib/utils/kgvops.cpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/lib/utils/kgvops.cpp b/lib/utils/kgvops.cpp
index 6e68388..8806a70 100644
--- a/lib/utils/kgvops.cpp
+++ b/lib/utils/kgvops.cpp
@@ -63,6 +63,11 @@ void	stringcorre	( Float *da, Float *re, int nr)
 		int iB = B*(N_B-1)/5;
 		int iE = e*(N_E-1);
 		int iC = (cb+1)*(N_C-1)/2;
+		// the last node belongs to the last cell
+		if (iA > N_A-2) iA = N_A-2;
+		if (iB > N_B-2) iB = N_B-2;
+		if (iE > N_E-2) iE = N_E-2;
+		if (iC > N_C-2) iC = N_C-2;
 		int i0 = iC + N_C*iE + N_CE*iB + N_CEB*iA;
 		// LogOut("iA %d iB %d iE %d iC %d \n",iA,iB,iE,iC);
 		Float dA  = A*(N_A-1)/5-iA;
@@ -77,12 +82,12 @@ void	stringcorre	( Float *da, Float *re, int nr)
 		// face C 16->8 proyection
 		Float L000 = (Float) (LUTc[i0]*dC1 + LUTc[i0+1]*dC);
 		Float L001 = (Float) (LUTc[i0+N_C]*dC1 + LUTc[i0+N_C+1]*dC);
-		Float L010 = (Float) (LUTc[i0+N_E]*dC1 + LUTc[i0+N_E+1]*dC);
-		Float L011 = (Float) (LUTc[i0+N_E+N_C]*dC1 + LUTc[i0+N_E+N_C+1]*dC);
-		Float L100 = (Float) (LUTc[i0+N_B]*dC1 + LUTc[i0+N_B+1]*dC);
-		Float L101 = (Float) (LUTc[i0+N_B+N_C]*dC1 + LUTc[i0+N_B+N_C+1]*dC);
-		Float L110 = (Float) (LUTc[i0+N_B+N_E]*dC1 + LUTc[i0+N_B+N_E+1]*dC);
-		Float L111 = (Float) (LUTc[i0+N_B+N_E+N_C]*dC1 + LUTc[i0+N_B+N_E+N_C+1]*dC);
+		Float L010 = (Float) (LUTc[i0+N_CE]*dC1 + LUTc[i0+N_CE+1]*dC);
+		Float L011 = (Float) (LUTc[i0+N_CE+N_C]*dC1 + LUTc[i0+N_CE+N_C+1]*dC);
+		Float L100 = (Float) (LUTc[i0+N_CEB]*dC1 + LUTc[i0+N_CEB+1]*dC);
+		Float L101 = (Float) (LUTc[i0+N_CEB+N_C]*dC1 + LUTc[i0+N_CEB+N_C+1]*dC);
+		Float L110 = (Float) (LUTc[i0+N_CEB+N_CE]*dC1 + LUTc[i0+N_CEB+N_CE+1]*dC);
+		Float L111 = (Float) (LUTc[i0+N_CEB+N_CE+N_C]*dC1 + LUTc[i0+N_CEB+N_CE+N_C+1]*dC);
 		// face E 8->4
 		L000 = L000*dE1 + L001*dE;
 		L010 = L010*dE1 + L011*dE;
@@ -96,12 +101,12 @@ void	stringcorre	( Float *da, Float *re, int nr)
 
 		L000 = (Float) (LUTs[i0]*dC1             + LUTs[i0+1]*dC);
 		L001 = (Float) (LUTs[i0+N_C]*dC1         + LUTs[i0+N_C+1]*dC);
-		L010 = (Float) (LUTs[i0+N_E]*dC1         + LUTs[i0+N_E+1]*dC);
-		L011 = (Float) (LUTs[i0+N_E+N_C]*dC1     + LUTs[i0+N_E+N_C+1]*dC);
-		L100 = (Float) (LUTs[i0+N_B]*dC1         + LUTs[i0+N_B+1]*dC);
-		L101 = (Float) (LUTs[i0+N_B+N_C]*dC1     + LUTs[i0+N_B+N_C+1]*dC);
-		L110 = (Float) (LUTs[i0+N_B+N_E]*dC1     + LUTs[i0+N_B+N_E+1]*dC);
-		L111 = (Float) (LUTs[i0+N_B+N_E+N_C]*dC1 + LUTs[i0+N_B+N_E+N_C+1]*dC);
+		L010 = (Float) (LUTs[i0+N_CE]*dC1         + LUTs[i0+N_CE+1]*dC);
+		L011 = (Float) (LUTs[i0+N_CE+N_C]*dC1     + LUTs[i0+N_CE+N_C+1]*dC);
+		L100 = (Float) (LUTs[i0+N_CEB]*dC1         + LUTs[i0+N_CEB+1]*dC);
+		L101 = (Float) (LUTs[i0+N_CEB+N_C]*dC1     + LUTs[i0+N_CEB+N_C+1]*dC);
+		L110 = (Float) (LUTs[i0+N_CEB+N_CE]*dC1     + LUTs[i0+N_CEB+N_CE+1]*dC);
+		L111 = (Float) (LUTs[i0+N_CEB+N_CE+N_C]*dC1 + LUTs[i0+N_CEB+N_CE+N_C+1]*dC);
 		// face E 8->4
 		L000 = L000*dE1 + L001*dE;
 		L010 = L010*dE1 + L011*dE;
-- 
2.43.0


From ff953c72f17c135d650e9241512757a251809221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:51 +0000
Subject: [PATCH 30/82] fix: 32-byte HDF5 string attributes were read from and
 into 16-byte buffers

---
 lib/io/readWrite.pHdf5.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 779a710..c7be4f3 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -225,7 +225,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 	hid_t	mSpace, vSpace, memSpace, dataType, totalSpace;
 	hsize_t	total, slice, slab, offset;
 
-	char	prec[16], fStr[16], lStr[16], rStr[16], dStr[16], vStr[32], vPQStr[32], icStr[16], smStr[16];
+	char	prec[32], fStr[32], lStr[32], rStr[32], dStr[32], vStr[32], vPQStr[32], icStr[32], smStr[32];
 	int	length = 32;
 
 	const hsize_t maxD[1] = { H5S_UNLIMITED };
@@ -762,7 +762,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 		hid_t	attr_type;
 		hsize_t	slab, offset;
 		FieldPrecision	precision;
-		char	prec[16], fStr[16], lStr[16], icStr[16], vStr[32], vPQStr[32], smStr[16];
+		char	prec[32], fStr[32], lStr[32], icStr[32], vStr[32], vPQStr[32], smStr[32];
 		int	length = 32;
 		const hsize_t maxD[1] = { H5S_UNLIMITED };
 		size_t	dataSize;
@@ -1581,7 +1581,7 @@ void	createMeas (Scalar *axion, int index)
 {
 	hid_t	plist_id, dataType;
 
-	char	prec[16], fStr[16], lStr[16], icStr[16], vStr[32], vPQStr[32], smStr[16], dStr[16], rStr[16];
+	char	prec[32], fStr[32], lStr[32], icStr[32], vStr[32], vPQStr[32], smStr[32], dStr[32], rStr[32];
 	int	length = 32;
 
 //	const hsize_t maxD[1] = { H5S_UNLIMITED };
@@ -5356,7 +5356,7 @@ double	readEDens (Cosmos *myCosmos, Scalar **axion, int index)
 
 	FieldPrecision	precision;
 
-	char	prec[16], fStr[16], lStr[16], icStr[16], vStr[32], smStr[16];
+	char	prec[32], fStr[32], lStr[32], icStr[32], vStr[32], smStr[32];
 	int	length = 32;
 
 	const hsize_t maxD[1] = { H5S_UNLIMITED };
-- 
2.43.0


From e674e4d1f730dfb32b06f05d692e822dc3e7201e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:31 +0000
Subject: [PATCH 31/82] fix: PQ2 and PQ3 potentials were read back as PQ1

---
 lib/io/readWrite.pHdf5.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index c7be4f3..b165219 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -1088,9 +1088,9 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 
 					if (!strcmp(vStr, "VPQ 1"))
 						vqcdType |= V_PQ1;
-					else if ( !strcmp(vStr, "VPQ2"))
+					else if ( !strcmp(vStr, "VPQ 2") || !strcmp(vStr, "VPQ2"))
 						vqcdType |= V_PQ2;
-					else if ( !strcmp(vStr, "VPQ3"))
+					else if ( !strcmp(vStr, "VPQ 3") || !strcmp(vStr, "VPQ3"))
 						vqcdType |= V_PQ3;
 					else {
 						LogError ("Error reading file %s: invalid PQ potential type %s. Use PQ1", base, vStr);
-- 
2.43.0


From d274dbde5506efa0cca55e070d40904be77be49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:10 +0000
Subject: [PATCH 32/82] fix: expansion exponent of a checkpoint was ignored,
 and --frw too when reading

---
 include/utils/parse.h      |  1 +
 lib/io/readWrite.pHdf5.cpp | 13 +++++++------
 lib/utils/parse.cpp        |  2 ++
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/utils/parse.h b/include/utils/parse.h
index bcfa1d5..2e9ab82 100644
--- a/include/utils/parse.h
+++ b/include/utils/parse.h
@@ -60,6 +60,7 @@ extern bool uwDz;
 extern bool lowmem;
 extern bool lowmemGPU;
 extern bool uPrec;
+extern bool uFR;
 //extern bool uQcd;
 //extern bool uMsa;
 //extern bool uLambda;
diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index b165219..8b6c315 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -864,13 +864,14 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 			readAttribute (file_id, &fTmp,  "Frw",          H5T_NATIVE_DOUBLE);
 
 			// note: command line is given precedence
-			if (myCosmos->Frw() != fTmp) {
+			if (!uFR) {
+				myCosmos->SetFrw(fTmp);
+			} else if (myCosmos->Frw() != fTmp) {
 				LogMsg (VERB_NORMAL, "Commandline input for frw (%.2f) does not match h5read value (%.2f); frw set to input %.2f",myCosmos->Frw(),fTmp,myCosmos->Frw());
-				fTmp = myCosmos->Frw();
-				if (fTmp == 0.0 ){
-					myCosmos->SetMink(true);
-					LogMsg (VERB_NORMAL, "Set Mink (frw = 0, no expansion)");
-				}
+			}
+			if (myCosmos->Frw() == 0.0 ){
+				myCosmos->SetMink(true);
+				LogMsg (VERB_NORMAL, "Set Mink (frw = 0, no expansion)");
 			}
 
 			/* Box length in ADM units */
diff --git a/lib/utils/parse.cpp b/lib/utils/parse.cpp
index c4ef53e..f85f3e9 100755
--- a/lib/utils/parse.cpp
+++ b/lib/utils/parse.cpp
@@ -752,6 +752,7 @@ int	parseArgs (int argc, char *argv[])
 			mink = true;
 			uMI  = true;
 			frw  = 0.0;
+			uFR  = true;
 			PARSE1;
 		}
 
@@ -771,6 +772,7 @@ int	parseArgs (int argc, char *argv[])
 			}
 
 			frw = atof(argv[i+1]);
+			uFR = true;
 
 			if (frw < 0.)
 			{
-- 
2.43.0


From db77d373e0eee7e4fe7d46250365054213bf4c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:42 +0000
Subject: [PATCH 33/82] fix: reduction filtered the velocity of a complex field
 with ky and kz swapped

---
 lib/fft/fftCode.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/fft/fftCode.cpp b/lib/fft/fftCode.cpp
index 0869994..6565ddc 100755
--- a/lib/fft/fftCode.cpp
+++ b/lib/fft/fftCode.cpp
@@ -216,10 +216,10 @@ namespace AxionFFT {
 						}
 
 						if (dFft & FFT_FWD)
-							planForward  = static_cast<void *>(fftwf_mpi_plan_dft_3d(Lz, Lx, Lx, v,  m2, MPI_COMM_WORLD, FFTW_FORWARD,  fftplanType));
+							planForward  = static_cast<void *>(fftwf_mpi_plan_dft_3d(Lz, Lx, Lx, v,  m2, MPI_COMM_WORLD, FFTW_FORWARD,  fftplanType | FFTW_MPI_TRANSPOSED_OUT));
 
 						if (dFft & FFT_BCK)
-							planBackward = static_cast<void *>(fftwf_mpi_plan_dft_3d(Lz, Lx, Lx, m2, m2, MPI_COMM_WORLD, FFTW_BACKWARD, fftplanType));
+							planBackward = static_cast<void *>(fftwf_mpi_plan_dft_3d(Lz, Lx, Lx, m2, m2, MPI_COMM_WORLD, FFTW_BACKWARD, fftplanType | FFTW_MPI_TRANSPOSED_IN));
 						break;
 
 					case	FFT_SPAX:
@@ -417,10 +417,10 @@ namespace AxionFFT {
 						}
 
 						if (dFft & FFT_FWD)
-							planForward  = static_cast<void *>(fftw_mpi_plan_dft_3d(Lz, Lx, Lx, v,  m2, MPI_COMM_WORLD, FFTW_FORWARD,  fftplanType));
+							planForward  = static_cast<void *>(fftw_mpi_plan_dft_3d(Lz, Lx, Lx, v,  m2, MPI_COMM_WORLD, FFTW_FORWARD,  fftplanType | FFTW_MPI_TRANSPOSED_OUT));
 
 						if (dFft & FFT_BCK)
-							planBackward = static_cast<void *>(fftw_mpi_plan_dft_3d(Lz, Lx, Lx, m2, m2, MPI_COMM_WORLD, FFTW_BACKWARD, fftplanType));
+							planBackward = static_cast<void *>(fftw_mpi_plan_dft_3d(Lz, Lx, Lx, m2, m2, MPI_COMM_WORLD, FFTW_BACKWARD, fftplanType | FFTW_MPI_TRANSPOSED_IN));
 						break;
 
 					case	FFT_SPAX:
-- 
2.43.0


From 2f19f60e931f32d4e70828208c716dcd45b08d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:42 +0000
Subject: [PATCH 34/82] fix: reducing a real field into a new one overwrote the
 original instead

---
 lib/reducer/reducer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/reducer/reducer.cpp b/lib/reducer/reducer.cpp
index 2153335..c5b0f21 100755
--- a/lib/reducer/reducer.cpp
+++ b/lib/reducer/reducer.cpp
@@ -262,7 +262,7 @@ Scalar*	Reducer<Float>::runCpu	()
 				memcpy(mD, fOut, volData);
 			} else {
 				// Copy m to the second axionField
-				memcpy(mIn, fOut, volData);
+				memcpy(outField->mStart(), fOut, volData);
 			}
 
 			transformField<Float,complex<Float>,Float,true>(vIn, fMid, fOut, "pSpecAx");
-- 
2.43.0


From 2afd33db2a4cefb14d89ba9f4c6068b92fd94d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:53 +0000
Subject: [PATCH 35/82] fix: SIMD double-precision cosine for arguments beyond
 2^23 pi

The argument reduction must subtract uh*2^23 half turns (dCte), not uh/(2^23 pi).
---
 include/utils/triSimd.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/utils/triSimd.h b/include/utils/triSimd.h
index 8d16b02..2994ef8 100644
--- a/include/utils/triSimd.h
+++ b/include/utils/triSimd.h
@@ -63,6 +63,7 @@ constexpr double s8_d  = -0.166666666666666657414808;
 constexpr _MData_ rPid	    = { M_1_PI/(1<<24), M_1_PI/(1<<24), M_1_PI/(1<<24), M_1_PI/(1<<24), M_1_PI/(1<<24), M_1_PI/(1<<24), M_1_PI/(1<<24), M_1_PI/(1<<24) };
 constexpr _MData_ dPid	    = { M_1_PI/(1<<23), M_1_PI/(1<<23), M_1_PI/(1<<23), M_1_PI/(1<<23), M_1_PI/(1<<23), M_1_PI/(1<<23), M_1_PI/(1<<23), M_1_PI/(1<<23) };
 constexpr _MData_ rCte      = {   16777216.,   16777216.,   16777216.,   16777216.,   16777216.,   16777216.,   16777216.,   16777216. };
+constexpr _MData_ dCte      = {    8388608.,    8388608.,    8388608.,    8388608.,    8388608.,    8388608.,    8388608.,    8388608. };
 constexpr _MData_ oPid      = {     1./M_PI,     1./M_PI,     1./M_PI,     1./M_PI,     1./M_PI,     1./M_PI,     1./M_PI,     1./M_PI };
 constexpr _MData_ zeroNegd  = {        -0.0,        -0.0,        -0.0,        -0.0,        -0.0,        -0.0,        -0.0,        -0.0 };
 constexpr _MData_ dHlf      = {         0.5,         0.5,         0.5,         0.5,         0.5,         0.5,         0.5,         0.5 };
@@ -343,13 +344,13 @@ inline _MData_	opCode(cos_pd, _MData_ x)
 
 #if	defined(__AVX512F__)
 	uh = opCode(roundscale_pd, opCode(fmsub_pd, x, dPid, rPid), 0x03);
-	qi = opCode(cvtpd_epi32, opCode(fmadd_pd, x, oPid, opCode(fnmsub_pd, uh, dPid, dHlf)));
+	qi = opCode(cvtpd_epi32, opCode(fmadd_pd, x, oPid, opCode(fnmsub_pd, uh, dCte, dHlf)));
 #elif	defined(__FMA__)
 	uh = opCode(round_pd, opCode(fmsub_pd, x, dPid, rPid), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
-	qi = opCode(cvtpd_epi32, opCode(fmadd_pd, x, oPid, opCode(fnmsub_pd, uh, dPid, dHlf)));
+	qi = opCode(cvtpd_epi32, opCode(fmadd_pd, x, oPid, opCode(fnmsub_pd, uh, dCte, dHlf)));
 #else
 	uh = opCode(round_pd, opCode(sub_pd, opCode(mul_pd, x, dPid), rPid), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
-	qi = opCode(cvtpd_epi32, opCode(sub_pd, opCode(mul_pd, x, oPid), opCode(add_pd, opCode(mul_pd, uh, dPid), dHlf)));
+	qi = opCode(cvtpd_epi32, opCode(sub_pd, opCode(mul_pd, x, oPid), opCode(add_pd, opCode(mul_pd, uh, dCte), dHlf)));
 #endif
 	uh = opCode(mul_pd, uh, rCte);
 #if	defined(__AVX__)
-- 
2.43.0


From b399f221f1b2b6c6ac100d303635fe532ee083ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 36/82] fix: checkpoints did not keep the axion-only evolution
 switch

---
 lib/io/readWrite.pHdf5.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 8b6c315..22333d7 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -429,8 +429,9 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 		caspr(V_NONE,dStr,"None")
 	}
 
-	switch (vqcdType & V_EVOL_RHO)	{
+	switch (vqcdType & V_EVOL)	{
 		caspr(V_EVOL_RHO,rStr,"Only Rho")
+		caspr(V_EVOL_THETA,rStr,"Only Theta")
 		default:
 		caspr(V_NONE,rStr,"Full")
 	}
@@ -1134,6 +1135,8 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 
 					if (!strcmp(vStr, "Only Rho"))
 						vqcdType |= V_EVOL_RHO;
+					else if (!strcmp(vStr, "Only Theta"))
+						vqcdType |= V_EVOL_THETA;
 					else if (!strcmp(vStr, "Full"))
 						vqcdType |= V_NONE;
 					else {
@@ -1735,8 +1738,9 @@ void	createMeas (Scalar *axion, int index)
 		caspr(V_NONE,dStr,"None")
 	}
 
-	switch (vqcdType & V_EVOL_RHO)	{
+	switch (vqcdType & V_EVOL)	{
 		caspr(V_EVOL_RHO,rStr,"Only Rho")
+		caspr(V_EVOL_THETA,rStr,"Only Theta")
 		default:
 		caspr(V_NONE,rStr,"Full")
 	}
-- 
2.43.0


From cedc186f0d500506f5b603cb8734e5711463279b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:44 +0000
Subject: [PATCH 37/82] fix: drift-first integrators read past the coefficient
 table and skipped a drift

---
 include/propagator/propClass.h | 50 +++++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index 7a28902..b59d872 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -604,9 +604,21 @@
 			munge(UNFOLD_ALL);
 		}
 
+		const double *cD = d;
+
+		if (lastStage == PROP_FIRST) {
+			const double d0 = d[0];
+			/* First drift no kick c = 0 */
+
+			updateMThetaXeon(axion->mCpu(), axion->vCpu(), dz, d0, Lx, S, V+S, precision, xBlock, yBlock, zBlock);
+			*z += dz*d0;
+			axion->updateR();
+			cD = &(d[1]);
+		}
+
 		#pragma unroll
 		for (int s = 0; s<nStages; s++) {
-			const double	c0 = c[s], d0 = d[s], maa = axion->AxionMassSq();
+			const double	c0 = c[s], d0 = cD[s], maa = axion->AxionMassSq();
 
 			#pragma omp parallel for schedule(static)
 			for (size_t sl=0; sl<Sf; sl++) {
@@ -618,11 +630,11 @@
 
 			applyLaplacian(axion);
 			sPropThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), R, dz, c0, d0, maa, fMom, Lx, S, V+S, precision);
-			*z += dz*d[s];
+			*z += dz*d0;
 			axion->updateR();
 		}
 
-		if (lastStage) {
+		if (lastStage == PROP_LAST) {
 			LogMsg (VERB_HIGH, "Warning: spectral propagator not optimized yet for odd propagators, performance might be reduced");
 
 			const double	c0 = c[nStages], maa = axion->AxionMassSq();
@@ -755,6 +767,18 @@
 		/* Start of the last slices, not counting those already in [BO,2*BO) */
 		const size_t top = (V > 2*BO) ? V : 2*BO;
 
+		const double *cD = d;
+
+		if (lastStage == PROP_FIRST) {
+			const double d0 = d[0];
+			/* First drift no kick c = 0 */
+
+			updateMXeon(axion->mCpu(), axion->vCpu(), dz, d0, Lx, BO, V+BO, precision, xBlock, yBlock, zBlock);
+			*z += dz*d0;
+			axion->updateR();
+			cD = &(d[1]);
+		}
+
 		#pragma unroll
 		for (int s = 0; s<nStages; s++) {
 
@@ -766,7 +790,7 @@
 
 			axion->sendGhosts(FIELD_M, COMM_SDRV);
 
-			const double c0 = c[s], d0 = d[s];
+			const double c0 = c[s], d0 = cD[s];
 
 			updateVXeon<VQcd>(axion->mCpu(), axion->vCpu(), ppar, dz, c0, 2*BO, V   , precision, xBlock, yBlock, zBlock);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
@@ -778,7 +802,7 @@
 			axion->updateR();
 		}
 
-		if (lastStage) {
+		if (lastStage == PROP_LAST) {
 			axion->sendGhosts(FIELD_M, COMM_SDRV);
 
 			ppar.lambda = axion->LambdaP();
@@ -826,9 +850,21 @@
 			munge(UNFOLD_ALL);
 		}
 
+		const double *cD = d;
+
+		if (lastStage == PROP_FIRST) {
+			const double d0 = d[0];
+			/* First drift no kick c = 0 */
+
+			updateMXeon(axion->mCpu(), axion->vCpu(), dz, d0, Lx, BO, V+BO, precision, xBlock, yBlock, zBlock);
+			*z += dz*d0;
+			axion->updateR();
+			cD = &(d[1]);
+		}
+
 		#pragma unroll
 		for (int s = 0; s<nStages; s++) {
-			const double	c0 = c[s], d0 = d[s], maa = axion->AxionMassSq();
+			const double	c0 = c[s], d0 = cD[s], maa = axion->AxionMassSq();
 
 			applyLaplacian(axion);
 
@@ -842,7 +878,7 @@
 			axion->updateR();
 		}
 
-		if (lastStage) {
+		if (lastStage == PROP_LAST) {
 			LogMsg (VERB_HIGH, "Warning: spectral propagator not optimized yet for odd propagators, performance might be reduced");
 
 			const double	c0 = c[nStages], maa = axion->AxionMassSq();
-- 
2.43.0


From 8d1e40ac3ed752b2158531da0f1da7bd9e40eb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:44 +0000
Subject: [PATCH 38/82] fix: spectral propagators dropped or mis-scaled the
 expansion terms

---
 include/propagator/propClass.h      |  6 ++++--
 include/propagator/sPropThetaXeon.h | 12 +++++++-----
 include/propagator/sPropXeon.h      |  9 +++++----
 3 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index b59d872..d2cb5ed 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -629,7 +629,7 @@
 			}
 
 			applyLaplacian(axion);
-			sPropThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), R, dz, c0, d0, maa, fMom, Lx, S, V+S, precision);
+			sPropThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), R, dz, c0, d0, maa, fMom, axion->Rpp(), Lx, S, V+S, precision);
 			*z += dz*d0;
 			axion->updateR();
 		}
@@ -647,7 +647,7 @@
 			}
 
 			applyLaplacian(axion);
-			sPropThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), R, dz, c0, 0.0, maa, fMom, Lx, S, V+S, precision);
+			sPropThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), R, dz, c0, 0.0, maa, fMom, axion->Rpp(), Lx, S, V+S, precision);
 		}
 		axion->setM2     (M2_DIRTY);
 	}
@@ -872,6 +872,7 @@
 			ppar.massA2 = axion->AxionMassSq();
 			ppar.R      = *axion->RV();
 			ppar.Rpp    = axion->Rpp();
+			ppar.Rp     = axion->BckGnd()->Rp(*axion->zV());
 
 			sPropKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, d0, S, V+S, precision);
 			*z += dz*d0;
@@ -889,6 +890,7 @@
 			ppar.massA2 = axion->AxionMassSq();
 			ppar.R      = *axion->RV();
 			ppar.Rpp    = axion->Rpp();
+			ppar.Rp     = axion->BckGnd()->Rp(*axion->zV());
 
 			sPropKernelXeon<VQcd>(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c0, 0.0, S, V+S, precision);
 		}
diff --git a/include/propagator/sPropThetaXeon.h b/include/propagator/sPropThetaXeon.h
index 583aaae..4639af9 100755
--- a/include/propagator/sPropThetaXeon.h
+++ b/include/propagator/sPropThetaXeon.h
@@ -27,7 +27,7 @@
 #endif
 
 void	sPropThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, const void * __restrict__ m2_, double *R, const double dz, const double c, const double d,
-			     const double aMass2, const double fMom, const size_t Lx, const size_t Vo, const size_t Vf, FieldPrecision precision, const size_t pad=2)
+			     const double aMass2, const double fMom, const double Rpp, const size_t Lx, const size_t Vo, const size_t Vf, FieldPrecision precision, const size_t pad=2)
 {
 	const size_t Sf = Lx*Lx;
 
@@ -70,6 +70,7 @@ void	sPropThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, const
 		const _MData_ dzcVec = opCode(set1_pd, dzc);
 		const _MData_ dzdVec = opCode(set1_pd, dzd);
 		const _MData_ fMVec  = opCode(set1_pd, fMom);
+		const _MData_ RppVec = opCode(set1_pd, Rpp);
 
 		#pragma omp parallel default(shared)
 		{
@@ -86,11 +87,11 @@ void	sPropThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, const
 				vel = opCode(load_pd, &v[idxMz]);
 
 #if	defined(__AVX512F__) || defined(__FMA__)
-				acu = opCode(fnmadd_pd, zQVec, opCode(sin_pd, opCode(mul_pd, mel, izVec)), opCode(mul_pd, fMVec, opCode(loadu_pd, &m2[idxM2])));
+				acu = opCode(fnmadd_pd, zQVec, opCode(sin_pd, opCode(mul_pd, mel, izVec)), opCode(fmadd_pd, RppVec, mel, opCode(mul_pd, fMVec, opCode(loadu_pd, &m2[idxM2]))));
 				tmp = opCode(fmadd_pd, acu, dzcVec, vel);
 				m2l = opCode(fmadd_pd, tmp, dzdVec, mel);
 #else
-				acu = opCode(sub_pd, opCode(mul_pd, fMVec, opCode(loadu_pd, &m2[idxM2])), opCode(mul_pd, zQVec, opCode(sin_pd, opCode(mul_pd, mel, izVec))));
+				acu = opCode(sub_pd, opCode(add_pd, opCode(mul_pd, fMVec, opCode(loadu_pd, &m2[idxM2])), opCode(mul_pd, RppVec, mel)), opCode(mul_pd, zQVec, opCode(sin_pd, opCode(mul_pd, mel, izVec))));
 				tmp = opCode(add_pd, vel, opCode(mul_pd, acu, dzcVec));
 				m2l = opCode(add_pd, mel, opCode(mul_pd, tmp, dzdVec));
 #endif
@@ -147,6 +148,7 @@ void	sPropThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, const
 		const _MData_ dzcVec = opCode(set1_ps, dzc);
 		const _MData_ dzdVec = opCode(set1_ps, dzd);
 		const _MData_ fMVec  = opCode(set1_ps, fMom);
+		const _MData_ RppVec = opCode(set1_ps, Rpp);
 
 		#pragma omp parallel default(shared)
 		{
@@ -164,11 +166,11 @@ void	sPropThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, const
 
 
 #if	defined(__AVX512F__) || defined(__FMA__)
-				acu = opCode(fnmadd_ps, zQVec, opCode(sin_ps, opCode(mul_ps, mel, izVec)), opCode(mul_ps, fMVec, opCode(loadu_ps, &m2[idxM2])));
+				acu = opCode(fnmadd_ps, zQVec, opCode(sin_ps, opCode(mul_ps, mel, izVec)), opCode(fmadd_ps, RppVec, mel, opCode(mul_ps, fMVec, opCode(loadu_ps, &m2[idxM2]))));
 				tmp = opCode(fmadd_ps, acu, dzcVec, vel);
 				m2l = opCode(fmadd_ps, tmp, dzdVec, mel);
 #else
-				acu = opCode(sub_ps, opCode(mul_ps, fMVec, opCode(loadu_ps, &m2[idxM2])), opCode(mul_ps, zQVec, opCode(sin_ps, opCode(mul_ps, mel, izVec))));
+				acu = opCode(sub_ps, opCode(add_ps, opCode(mul_ps, fMVec, opCode(loadu_ps, &m2[idxM2])), opCode(mul_ps, RppVec, mel)), opCode(mul_ps, zQVec, opCode(sin_ps, opCode(mul_ps, mel, izVec))));
 				tmp = opCode(add_ps, vel, opCode(mul_ps, acu, dzcVec));
 				m2l = opCode(add_ps, mel, opCode(mul_ps, tmp, dzdVec));
 #endif
diff --git a/include/propagator/sPropXeon.h b/include/propagator/sPropXeon.h
index 8cfffd7..e212e27 100755
--- a/include/propagator/sPropXeon.h
+++ b/include/propagator/sPropXeon.h
@@ -41,6 +41,7 @@ inline	void	sPropKernelXeon(void * __restrict__ m_, void * __restrict__ v_, cons
 	const double gamma = ppar.gamma;
 	const double LL    = ppar.lambda;
 	const double Rpp   = ppar.Rpp;
+	const double Rp    = ppar.Rp;
 	const double fMom  = ppar.fMom1;
 
 	if (precision == FIELD_DOUBLE)
@@ -225,13 +226,13 @@ inline	void	sPropKernelXeon(void * __restrict__ m_, void * __restrict__ v_, cons
 					tmp = opCode(sub_pd,
 						opCode(fmadd_pd, mMx, opCode(set1_pd, dzc), mPy),
 						opCode(mul_pd, opCode(mul_pd, opCode(set1_pd, epsi), opCode(div_pd, mel, mPx)),
-							opCode(fmadd_pd, opCode(sub_pd,vecmv,opCode(div_pd,mPx,opCode(set1_pd, R))), opCode(set1_pd, 2.0), opCode(mul_pd, vecma, opCode(set1_pd, dzc)))));
+							opCode(fmadd_pd, opCode(sub_pd,vecmv,opCode(mul_pd,mPx,opCode(set1_pd, Rp))), opCode(set1_pd, 2.0), opCode(mul_pd, vecma, opCode(set1_pd, dzc)))));
 #else
 					tmp = opCode(sub_pd,
 						opCode(add_pd, mPy, opCode(mul_pd, mMx, opCode(set1_pd, dzc))),
 						opCode(mul_pd, opCode(mul_pd, opCode(set1_pd, epsi), opCode(div_pd, mel, mPx)),
 							opCode(add_pd,
-								opCode(mul_pd, opCode(sub_pd,vecmv,opCode(div_pd,mPx,opCode(set1_pd, R))), opCode(set1_pd, 2.0)),
+								opCode(mul_pd, opCode(sub_pd,vecmv,opCode(mul_pd,mPx,opCode(set1_pd, Rp))), opCode(set1_pd, 2.0)),
 								opCode(mul_pd, vecma, opCode(set1_pd, dzc)))));
 #endif
 						break;
@@ -450,13 +451,13 @@ inline	void	sPropKernelXeon(void * __restrict__ m_, void * __restrict__ v_, cons
 				tmp = opCode(sub_ps,
 					opCode(fmadd_ps, mMx, opCode(set1_ps, dzc), mPy),
 					opCode(mul_ps, opCode(mul_ps, opCode(set1_ps, epsi), opCode(div_ps, mel, mPx)),
-						opCode(fmadd_ps, opCode(sub_ps,vecmv,opCode(div_ps,mPx,opCode(set1_ps, Rf))), opCode(set1_ps, 2.f), opCode(mul_ps, vecma, opCode(set1_ps, dzc)))));
+						opCode(fmadd_ps, opCode(sub_ps,vecmv,opCode(mul_ps,mPx,opCode(set1_ps, Rp))), opCode(set1_ps, 2.f), opCode(mul_ps, vecma, opCode(set1_ps, dzc)))));
 #else
 				tmp = opCode(sub_ps,
 					opCode(add_ps, mPy, opCode(mul_ps, mMx, opCode(set1_ps, dzc))),
 					opCode(mul_ps, opCode(mul_ps, opCode(set1_ps, epsi), opCode(div_ps, mel, mPx)),
 						opCode(add_ps,
-							opCode(mul_ps, opCode(sub_ps,vecmv,opCode(div_ps,mPx,opCode(set1_ps, Rf))), opCode(set1_ps, 2.f)),
+							opCode(mul_ps, opCode(sub_ps,vecmv,opCode(mul_ps,mPx,opCode(set1_ps, Rp))), opCode(set1_ps, 2.f)),
 							opCode(mul_ps, vecma, opCode(set1_ps, dzc)))));
 #endif
 					}
-- 
2.43.0


From 17012aabcd90d14039231588f931e435baf0fddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:44 +0000
Subject: [PATCH 39/82] fix: misaligned vector load in the fully spectral
 single-precision axion kernel

---
 include/propagator/fsPropThetaXeon.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/propagator/fsPropThetaXeon.h b/include/propagator/fsPropThetaXeon.h
index 53c48a8..bc3004a 100644
--- a/include/propagator/fsPropThetaXeon.h
+++ b/include/propagator/fsPropThetaXeon.h
@@ -211,7 +211,7 @@ inline	void	fsPropKernelThetaXeon(void * __restrict__ m_, void * __restrict__ v_
 			int    kx, ky, kz;
 			size_t tmp;
 
-			float pn[2*step];
+			float __attribute__((aligned(Align))) pn[2*step];
 
 			#pragma omp for schedule(static)
 			for (size_t idx=0; idx < Vol; idx += step)
-- 
2.43.0


From bbcd7d661f834e479e26469d6a107948c46305c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:44 +0000
Subject: [PATCH 40/82] fix: sign of the V_QCD2 force in the spectral
 propagator

---
 include/propagator/sPropXeon.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/propagator/sPropXeon.h b/include/propagator/sPropXeon.h
index e212e27..9b0f088 100755
--- a/include/propagator/sPropXeon.h
+++ b/include/propagator/sPropXeon.h
@@ -180,7 +180,7 @@ inline	void	sPropKernelXeon(void * __restrict__ m_, void * __restrict__ v_, cons
 						mMx = opCode(add_pd, mMx, opCode(mul_pd, opCode(set1_pd, zQ), opCode(sub_pd, zRVec, mel)));
 					break;
 					case V_QCD2:
-						mMx = opCode(sub_pd, mMx, opCode(mul_pd,zNVec,mel));
+						mMx = opCode(add_pd, mMx, opCode(mul_pd,zNVec,mel));
 					break;
 					case V_QCDC:
 						tmp2 = opCode(div_pd,
@@ -401,7 +401,7 @@ inline	void	sPropKernelXeon(void * __restrict__ m_, void * __restrict__ v_, cons
 						mMx = opCode(add_ps, mMx, opCode(mul_ps, opCode(set1_ps, zQ), opCode(sub_ps, zRVec, mel)));
 					break;
 					case V_QCD2:
-						mMx = opCode(sub_ps, mMx, opCode(mul_ps,zNVec,mel));
+						mMx = opCode(add_ps, mMx, opCode(mul_ps,zNVec,mel));
 					break;
 					case V_QCDC:
 						tmp2 = opCode(div_ps,
-- 
2.43.0


From e9fd1e43b36aa5a41c502ba16ddc13fa12bc91a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:44 +0000
Subject: [PATCH 41/82] fix: Fourier transform of an axion velocity left part
 of the modes unscaled

---
 lib/scalar/fourier.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/scalar/fourier.cpp b/lib/scalar/fourier.cpp
index 81bcf56..2a90959 100644
--- a/lib/scalar/fourier.cpp
+++ b/lib/scalar/fourier.cpp
@@ -90,8 +90,9 @@ void	FTfield::ftField(FieldIndex mvomv)
 					and we want its FT at v (unghosted)
 					first we pad into M2, then we FT into V*/
 					padtom2(field->vCpu());
+					/* scaled in m2: FIELD_V would leave out the padding */
+					scaleField	(field, FIELD_M2, scale);
 					myPlan.run(FFT_FWD);
-					scaleField	(field, FIELD_V, scale);
 					field->setVMomSpace(true);
 					LogMsg  (VERB_HIGH, "[Ftfield] real V transformed into momentum space ");
 				}
-- 
2.43.0


From 64d30f9cab2f2422900da77c8a616d8edd1113f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:44 +0000
Subject: [PATCH 42/82] fix: initial configurations ignored the value of mode0

---
 lib/gen/randXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/gen/randXeon.cpp b/lib/gen/randXeon.cpp
index f20b8ac..ccb9bd0 100644
--- a/lib/gen/randXeon.cpp
+++ b/lib/gen/randXeon.cpp
@@ -34,7 +34,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 	size_t local_z_start = rank*Lz;
 
 	/* used from ic */
-	double mod0  = ic.mode0 > 0.0;
+	double mod0  = ic.mode0;
 	double kCri  = ic.kcr;
 	/* for string wave */
 	int div = ic.kMax; // number of strings in one dimension
-- 
2.43.0


From a5c6e6cd109a53cf6f554be304905109da4caea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:44 +0000
Subject: [PATCH 43/82] fix: axiton start in double precision ran the
 parametric-resonance one

---
 lib/gen/randXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/gen/randXeon.cpp b/lib/gen/randXeon.cpp
index ccb9bd0..c398e7a 100644
--- a/lib/gen/randXeon.cpp
+++ b/lib/gen/randXeon.cpp
@@ -435,7 +435,7 @@ void	randConf (Scalar *field, IcData ic)
 				randXeon<double,CONF_PARRES> (ma, field, ic);
 				break;
 			case CONF_AXITON:
-				randXeon<double,CONF_PARRES> (ma, field, ic);
+				randXeon<double,CONF_AXITON> (ma, field, ic);
 				break;
 			case CONF_STRWAVE:
 				randXeon<double,CONF_STRWAVE> (ma, field, ic);
-- 
2.43.0


From c2b829ff0c33b65d5a7c14f8762268e418680bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:44 +0000
Subject: [PATCH 44/82] fix: initial configurations assumed a cubic box when
 placing slices

---
 lib/gen/randXeon.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/gen/randXeon.cpp b/lib/gen/randXeon.cpp
index c398e7a..2a8c465 100644
--- a/lib/gen/randXeon.cpp
+++ b/lib/gen/randXeon.cpp
@@ -29,7 +29,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 	const size_t V  = field->Size();
 	const double L  = field->BckGnd()->PhysSize();
 	int rank = commRank();
-	size_t Lz = Lx/commSize();
+	size_t Lz = field->Depth();
 	size_t Tz = field->TotalDepth();
 	size_t local_z_start = rank*Lz;
 
@@ -162,7 +162,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 						z = iz;
 						y = iy;
 						x = ix;
-						if (iz>Lx/2) { z = z-Lx; }
+						if (iz>Tz/2) { z = z-Tz; }
 						Float theta = ((Float) ((x-Lx/2)*(x-Lx/2)+(y-Lx/2)*(y-Lx/2)+z*z));
 						theta = exp(-theta*kCri2)*mod0;
 						m[idx] = std::complex<Float>(cos(theta), sin(theta));
@@ -179,7 +179,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 						z = iz;
 						y = iy;
 						x = ix;
-						if (iz>Lx/2) { z = z-Lx; }
+						if (iz>Tz/2) { z = z-Tz; }
 						if (iy>Lx/2) { y = y-Lx; }
 						if (ix>Lx/2) { x = x-Lx; }
 						Float theta = ((Float) (x*x + y*y + z*z));
@@ -197,7 +197,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 						z = iz;
 						y = iy;
 						x = ix;
-						if (iz>Lx/2) { z = z-Lx; }
+						if (iz>Tz/2) { z = z-Tz; }
 						if (iy>Lx/2) { y = y-Lx; }
 						if (ix>Lx/2) { x = x-Lx; }
 						Float theta = ((Float) (x*x + y*y + z*z));
@@ -250,7 +250,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 						x = ix;
 						if(1){
 						//CENTERED AT GRID, z=0
-						if (iz>Lx/2) { z = z-Lx; }
+						if (iz>Tz/2) { z = z-Tz; }
 						Float aL = ((Float) Lx)*((Float) strR);	//RADIUS
 						rho2 = (z)*(z)+(y-Lx/2)*(y-Lx/2);
 						Float rho = sqrt((Float) rho2)	;
-- 
2.43.0


From 0c969b9b6e5448bf69bfcc46c09e3121522b18b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:52 +0000
Subject: [PATCH 45/82] fix: gravity solver ignored the global mean and
 misplaced modes on other ranks of a reduced grid

---
 include/gravity/potentialClass.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gravity/potentialClass.h b/include/gravity/potentialClass.h
index d3b09e4..337449e 100644
--- a/include/gravity/potentialClass.h
+++ b/include/gravity/potentialClass.h
@@ -647,7 +647,7 @@ LogMsg (VERB_PARANOID, "[ilap] rnorm %e ",rnorm);
 			int    kx  = idx - tmp*hrLx;
 			int    ky  = tmp/rTz;
 			int    kz  = tmp - ((size_t) ky)*rTz;
-			ky += (int) zBase;
+			ky += (int) (zBase/ref);
 
 			if (ky > static_cast<int>(hrLy)) ky -= static_cast<int>(rLx);
 			if (kz > static_cast<int>(hrTz)) kz -= static_cast<int>(rTz);
@@ -795,7 +795,7 @@ LogMsg (VERB_PARANOID, "[ilap] rnorm %e ",rnorm);
 
 			MPI_Allreduce (&eA, &eAl, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
 
-			eA /= (double) tsize;
+			eA = eAl/ (double) tsize;
 
 		LogMsg (VERB_PARANOID, "[bcon] contrast build, eA = %e ",eA);
 
-- 
2.43.0


From 5621205bd27f38fd04a2521a581cc44a33efa032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:57 +0000
Subject: [PATCH 46/82] fix: the k-weighted spectrum of the extra velocity
 noise was replaced by the default one

---
 lib/gen/momConf.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/gen/momConf.cpp b/lib/gen/momConf.cpp
index 14f0003..a1fe2e6 100644
--- a/lib/gen/momConf.cpp
+++ b/lib/gen/momConf.cpp
@@ -435,6 +435,9 @@ void	momConf (Scalar *field, MomParms mopa)
 				case MOM_COLE:
 				momXeon<double, MOM_COLE>  (ma, va, mopa, n1, Lz, Tz, n2, n3);
 				break;
+				case MOM_KCOLE:
+				momXeon<double, MOM_KCOLE> (ma, va, mopa, n1, Lz, Tz, n2, n3);
+				break;
 				case MOM_SPAX:
 				momXeon<double, MOM_SPAX>  (ma, va, mopa, n1, Lz, Tz, n2, n3);
 				break;
@@ -484,6 +487,9 @@ void	momConf (Scalar *field, MomParms mopa)
 				case MOM_COLE:
 				momXeon<float, MOM_COLE>  (ma, va, mopa, n1, Lz, Tz, n2, n3);
 				break;
+				case MOM_KCOLE:
+				momXeon<float, MOM_KCOLE> (ma, va, mopa, n1, Lz, Tz, n2, n3);
+				break;
 				case MOM_SPAX:
 				momXeon<float, MOM_SPAX>  (ma, va, mopa, n1, Lz, Tz, n2, n3);
 				break;
-- 
2.43.0


From 580f857972deaa3e3901937bb1fbf1ab4d9a739a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:57 +0000
Subject: [PATCH 47/82] fix: string loops from coordinates lost perpendicular
 segments and read past the list

---
 lib/gen/momConf.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/gen/momConf.cpp b/lib/gen/momConf.cpp
index a1fe2e6..998c74d 100644
--- a/lib/gen/momConf.cpp
+++ b/lib/gen/momConf.cpp
@@ -283,7 +283,7 @@ void	momXeon (complex<Float> * __restrict__ fM, complex<Float> * __restrict__ fV
 												Float dy = yy[il+1]-yy[il];
 												Float dz = zz[il+1]-zz[il];
 												Float pdx = px*dx+py*dy+pz*dz;
-												complex<Float> aux = (1.0,0.);
+												complex<Float> aux = complex<Float>(1.0,0.);
 												if (pdx != 0.0){
 													// aux = (exp(complex<Float>(0,-k0N*pdx))-complex<Float>((1.0,0)))/complex<Float>((0.,-k0N*pdx));
 													aux = complex<Float>(sin(k0N*pdx),cos(k0N*pdx)-1)/(k0N*pdx);}
@@ -294,12 +294,12 @@ void	momXeon (complex<Float> * __restrict__ fM, complex<Float> * __restrict__ fV
 										}
 									else if (py != 0)
 										{
-											for (int il = 0; il < xx.size();il++){
+											for (int il = 0; il < xx.size()-1;il++){
 												Float dx = xx[il+1]-xx[il];
 												Float dy = yy[il+1]-yy[il];
 												Float dz = zz[il+1]-zz[il];
 												Float pdx = px*dx+py*dy+pz*dz;
-												complex<Float> aux = (1.0,0.);
+												complex<Float> aux = complex<Float>(1.0,0.);
 												if (pdx != 0.0){
 													// aux = (exp(complex<Float>(0,-k0N*pdx))-complex<Float>((1.0,0)))/complex<Float>((0.,-k0N*pdx));
 													aux = complex<Float>(sin(k0N*pdx),cos(k0N*pdx)-1)/(k0N*pdx);}
@@ -309,12 +309,12 @@ void	momXeon (complex<Float> * __restrict__ fM, complex<Float> * __restrict__ fV
 										}
 									else if (pz != 0)
 										{ // px=py=0 case
-												for (int il = 0; il < xx.size();il++){
+												for (int il = 0; il < xx.size()-1;il++){
 													Float dx = xx[il+1]-xx[il];
 													Float dy = yy[il+1]-yy[il];
 													Float dz = zz[il+1]-zz[il];
 													Float pdx = px*dx+py*dy+pz*dz;
-													complex<Float> aux = (1.0,0.);
+													complex<Float> aux = complex<Float>(1.0,0.);
 													if (pdx != 0.0){
 														// aux = (exp(complex<Float>(0,-k0N*pdx))-complex<Float>((1.0,0)))/complex<Float>((0.,-k0N*pdx));
 														aux = complex<Float>(sin(k0N*pdx),cos(k0N*pdx)-1)/(k0N*pdx);}
-- 
2.43.0


From d59ce4d8ee96719181a7e474b82024115c676811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:02 +0000
Subject: [PATCH 48/82] fix: string loops from coordinates lost every mode with
 a negative leading momentum

---
 lib/gen/momConf.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/gen/momConf.cpp b/lib/gen/momConf.cpp
index 998c74d..735c78b 100644
--- a/lib/gen/momConf.cpp
+++ b/lib/gen/momConf.cpp
@@ -289,7 +289,7 @@ void	momXeon (complex<Float> * __restrict__ fM, complex<Float> * __restrict__ fV
 													aux = complex<Float>(sin(k0N*pdx),cos(k0N*pdx)-1)/(k0N*pdx);}
 												// printf("aux idx %lu %f (%f,%f)\n",idx,k0N*pdx,aux.real(),aux.imag());
 												// py Wz - pzWy
-												su += (py*dz-pz*dy)/(px*modP) * exp(complex<Float>(0,-k0N*(px*xx[il]+py*yy[il]+pz*zz[il])))*aux;
+												su += (py*dz-pz*dy)/(px*((Float) modP)) * exp(complex<Float>(0,-k0N*(px*xx[il]+py*yy[il]+pz*zz[il])))*aux;
 											}
 										}
 									else if (py != 0)
@@ -304,7 +304,7 @@ void	momXeon (complex<Float> * __restrict__ fM, complex<Float> * __restrict__ fV
 													// aux = (exp(complex<Float>(0,-k0N*pdx))-complex<Float>((1.0,0)))/complex<Float>((0.,-k0N*pdx));
 													aux = complex<Float>(sin(k0N*pdx),cos(k0N*pdx)-1)/(k0N*pdx);}
 												// pz Wx - pxWz
-												su += (pz*dx-px*dz)/(py*modP) * exp(complex<Float>(0,-k0N*(px*xx[il]+py*yy[il]+pz*zz[il])))*aux;
+												su += (pz*dx-px*dz)/(py*((Float) modP)) * exp(complex<Float>(0,-k0N*(px*xx[il]+py*yy[il]+pz*zz[il])))*aux;
 											}
 										}
 									else if (pz != 0)
@@ -319,7 +319,7 @@ void	momXeon (complex<Float> * __restrict__ fM, complex<Float> * __restrict__ fV
 														// aux = (exp(complex<Float>(0,-k0N*pdx))-complex<Float>((1.0,0)))/complex<Float>((0.,-k0N*pdx));
 														aux = complex<Float>(sin(k0N*pdx),cos(k0N*pdx)-1)/(k0N*pdx);}
 													// px Wy - pyWx
-													su += (px*dy-py*dx)/(pz*modP) * exp(complex<Float>(0,-k0N*(px*xx[il]+py*yy[il]+pz*zz[il])))*aux;
+													su += (px*dy-py*dx)/(pz*((Float) modP)) * exp(complex<Float>(0,-k0N*(px*xx[il]+py*yy[il]+pz*zz[il])))*aux;
 												}
 										}
 									// else p=0, keep fM=0
-- 
2.43.0


From 147e9d847ba7910cd013dc66e818e7efc7614496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:27 +0000
Subject: [PATCH 49/82] fix: COLE start wrote its modes through an
 uninitialised pointer

---
 lib/gen/genConf.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/gen/genConf.cpp b/lib/gen/genConf.cpp
index 2a0123d..4da79aa 100755
--- a/lib/gen/genConf.cpp
+++ b/lib/gen/genConf.cpp
@@ -885,6 +885,7 @@ void	ConfGenerator::confcole(Cosmos *myCosmos, Scalar *axionField)
 		mopa.kCrt = axionField->BckGnd()->PhysSize()/(6.283185307179586*(*axionField->zV())*ic.kcr);
 		mopa.mocoty = MOM_COLE;
 		mopa.cmplx = true;
+		mopa.mp = axionField->m2Cpu();
 	momConf(axionField, mopa);
 	myPlan.run(FFT_BCK);
 
-- 
2.43.0


From e83860f9e245bc5ea61dcb4620912f0db291e859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:27 +0000
Subject: [PATCH 50/82] fix: mean modulus for normalising a start was
 uninitialised and divided by the local ghosted size

---
 lib/gen/genConf.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/gen/genConf.cpp b/lib/gen/genConf.cpp
index 4da79aa..9cc9bff 100755
--- a/lib/gen/genConf.cpp
+++ b/lib/gen/genConf.cpp
@@ -1639,7 +1639,7 @@ double	ConfGenerator::anymean(FieldIndex ftipo)
 	/* Computes the average value of rho for normalisation purposes */
 	LogMsg(VERB_NORMAL,"[GEN] any mean %d ",ftipo);
 	void* meandro ;
-	double mean, Mean;
+	double mean = 0., Mean = 0.;
 
 	switch(ftipo){
 		case FIELD_M:
@@ -1675,8 +1675,8 @@ double	ConfGenerator::anymean(FieldIndex ftipo)
 		}
 
 	MPI_Allreduce(&mean, &Mean, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
-	LogMsg(VERB_NORMAL,"[GEN] mean %.10e ",Mean/((double) axionField->eSize()));
-	return Mean/((double) axionField->eSize());
+	LogMsg(VERB_NORMAL,"[GEN] mean %.10e ",Mean/((double) axionField->TotalSize()));
+	return Mean/((double) axionField->TotalSize());
 } //end rhomean
 
 
-- 
2.43.0


From 9cb550d57a28a8cd1aaf256b3ba20a559b311013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:08 +0000
Subject: [PATCH 51/82] fix: transforming field and velocity skipped the
 velocity when the field was already transformed

---
 lib/scalar/fourier.cpp | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/lib/scalar/fourier.cpp b/lib/scalar/fourier.cpp
index 2a90959..4c8ed6f 100644
--- a/lib/scalar/fourier.cpp
+++ b/lib/scalar/fourier.cpp
@@ -40,18 +40,16 @@ void	FTfield::ftField(FieldIndex mvomv)
 	switch(field->Field()){
 		case FIELD_SAXION:
 		{
-			if (mvomv & FIELD_M)
+			if ((mvomv & FIELD_M) && !field->MMomSpace())
 				{
-					if (field->MMomSpace()) return;
 					auto &myPlan = AxionFFT::fetchPlan("C2CM2M");
 					myPlan.run(FFT_FWD);
 					scaleField	(field, FIELD_M, scale );
 					field->setMMomSpace(true);
 					LogMsg  (VERB_HIGH, "[Ftfield] complex M transformed into momentum space ");
 				}
-			if (mvomv & FIELD_V)
+			if ((mvomv & FIELD_V) && !field->VMomSpace())
 				{
-					if (field->VMomSpace()) return;
 					auto &myPlan = AxionFFT::fetchPlan("C2CV2V");
 					myPlan.run(FFT_FWD);
 					scaleField	(field, FIELD_V, scale);
@@ -69,9 +67,8 @@ void	FTfield::ftField(FieldIndex mvomv)
 		} break;
 		case FIELD_AXION:
 		{
-			if (mvomv & FIELD_M)
+			if ((mvomv & FIELD_M) && !field->MMomSpace())
 				{
-					if (field->MMomSpace()) return;
 					auto &myPlan = AxionFFT::fetchPlan("R2CM22M");
 					/* we assume the field is ghosted and unpadded
 					and we want its FT at m (unghosted)
@@ -82,9 +79,8 @@ void	FTfield::ftField(FieldIndex mvomv)
 					field->setMMomSpace(true);
 					LogMsg  (VERB_HIGH, "[Ftfield] real M transformed into momentum space ");
 				}
-			if (mvomv & FIELD_V)
+			if ((mvomv & FIELD_V) && !field->VMomSpace())
 				{
-					if (field->VMomSpace()) return;
 					auto &myPlan = AxionFFT::fetchPlan("R2CM22V");
 					/* we assume the field is unghosted unpadded
 					and we want its FT at v (unghosted)
@@ -129,17 +125,15 @@ void	FTfield::iftField(FieldIndex mvomv)
 	switch(field->Field()){
 		case FIELD_SAXION:
 		{
-			if (mvomv & FIELD_M)
+			if ((mvomv & FIELD_M) && field->MMomSpace())
 				{
-					if (!field->MMomSpace()) return;
 					auto &myPlan = AxionFFT::fetchPlan("C2CM2M");
 					myPlan.run(FFT_BCK);
 					field->setMMomSpace(false);
 					LogMsg  (VERB_HIGH, "[Ftfield] complex M transformed into position space ");
 				}
-			if (mvomv & FIELD_V)
+			if ((mvomv & FIELD_V) && field->VMomSpace())
 				{
-					if (!field->VMomSpace()) return;
 					auto &myPlan = AxionFFT::fetchPlan("C2CV2V");
 					myPlan.run(FFT_BCK);
 					field->setVMomSpace(false);
@@ -156,9 +150,8 @@ void	FTfield::iftField(FieldIndex mvomv)
 		} break;
 		case FIELD_AXION:
 		{
-			if (mvomv & FIELD_M)
+			if ((mvomv & FIELD_M) && field->MMomSpace())
 				{
-					if (!field->MMomSpace()) return;
 					auto &myPlan = AxionFFT::fetchPlan("R2CM22M");
 					/* Here we asume that FT(m) is unghosted in m
 					and we want m ghosted and unpadded in m
@@ -168,9 +161,8 @@ void	FTfield::iftField(FieldIndex mvomv)
 					field->setMMomSpace(false);
 					LogMsg  (VERB_HIGH, "[Ftfield] real M transformed into position space");
 				}
-			if (mvomv & FIELD_V)
+			if ((mvomv & FIELD_V) && field->VMomSpace())
 				{
-					if (!field->VMomSpace()) return;
 					auto &myPlan = AxionFFT::fetchPlan("R2CM22V");
 					/* Here we asume that FT(m) is unghosted in m
 					and we want v ghosted and unpadded in v
-- 
2.43.0


From d2859473cabb84bfff62f212c2a93bf4bc3df96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:21 +0000
Subject: [PATCH 52/82] fix: --msa discarded an --lz2e given before it

---
 lib/utils/parse.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/utils/parse.cpp b/lib/utils/parse.cpp
index f85f3e9..ff24ced 100755
--- a/lib/utils/parse.cpp
+++ b/lib/utils/parse.cpp
@@ -659,6 +659,7 @@ int	parseArgs (int argc, char *argv[])
 	LogMsg(VERB_HIGH,"Parsing ...");
 	bool	passed;
 	int	procArgs = 0;
+	bool	uLz2e = false;
 
 	// defaults
 	icdatst.Nghost    = 1;
@@ -1566,7 +1567,8 @@ int	parseArgs (int argc, char *argv[])
 
 			uMsa  = true;
 			lType = LAMBDA_Z2; //obsolete?
-      lz2e  = 2.0;
+			if (!uLz2e)	/* an explicit --lz2e wins wherever it stands */
+				lz2e  = 2.0;
 			PARSE2;
 		}
 
@@ -1578,7 +1580,8 @@ int	parseArgs (int argc, char *argv[])
 				exit(1);
 			}
 
-			lz2e = atof(argv[i+1]);
+			lz2e  = atof(argv[i+1]);
+			uLz2e = true;
 
 			PARSE2;
 		}
-- 
2.43.0


From f526fb1e7c39c82ad1a774d70d6a4cf7940fa5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:17 +0000
Subject: [PATCH 53/82] fix: options that need a value read past the command
 line when it was missing

---
 lib/utils/parse.cpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/lib/utils/parse.cpp b/lib/utils/parse.cpp
index ff24ced..f48e239 100755
--- a/lib/utils/parse.cpp
+++ b/lib/utils/parse.cpp
@@ -815,12 +815,24 @@ int	parseArgs (int argc, char *argv[])
 
 		if (!strcmp(argv[i], "--sliceprint"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need a slice number.\n");
+				exit(1);
+			}
+
 			sscanf(argv[i+1], "%d", reinterpret_cast<int*>(&slicepp));
 			PARSE2;
 		}
 
 		if (!strcmp(argv[i], "--p2Dslice"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need a slice number.\n");
+				exit(1);
+			}
+
 			p2dmapo = true ;
 			defaultmeasType |= MEAS_2DMAP;
 			maty |= MAPT_XYMV;
@@ -831,6 +843,12 @@ int	parseArgs (int argc, char *argv[])
 
 		if (!strcmp(argv[i], "--p2DsliceYZ"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need a slice number.\n");
+				exit(1);
+			}
+
 			p2dmapo = true ;
 			defaultmeasType |= MEAS_2DMAP;
 			maty |= MAPT_YZMV;
@@ -916,6 +934,12 @@ int	parseArgs (int argc, char *argv[])
 
     if (!strcmp(argv[i], "--idxprint"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need an index.\n");
+				exit(1);
+			}
+
 			sscanf(argv[i+1], "%lu", reinterpret_cast<size_t*>(&deninfa.idxprint));
 			PARSE2;
 		}
@@ -1770,6 +1794,12 @@ int	parseArgs (int argc, char *argv[])
 
 		if (!strcmp(argv[i], "--meas2theta"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need a measurement type for 2theta.\n");
+				exit(1);
+			}
+
 
 			MeasureType loco = (MeasureType) atoi(argv[i+1]);
 
-- 
2.43.0


From 0fd4651389d179d1ef17269a23849e28e2b18ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:17 +0000
Subject: [PATCH 54/82] fix: --wkb was compared with the final time before --zf
 had been read

---
 lib/utils/parse.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/utils/parse.cpp b/lib/utils/parse.cpp
index f48e239..1df6fdc 100755
--- a/lib/utils/parse.cpp
+++ b/lib/utils/parse.cpp
@@ -49,6 +49,7 @@ double gammo    = 0.0;
 double dectime  = -1.0;
 double p3DthresholdMB = 1.e+6;
 double wkb2z  = -1.0;
+bool   bwkb   = false;
 double prepstL = 5.0 ;
 double prepcoe = 3.0 ;
 double ng0calib = 1.25 ;
@@ -1150,12 +1151,7 @@ int	parseArgs (int argc, char *argv[])
 
 			wkb2z = atof(argv[i+1]);
 
-			if (wkb2z < zFinl)
-			{
-				printf("Error: z_wkb must be > zf. No WKB will be done!\n");
-				wkb2z = -1.0	;
-				exit(1);
-			}
+			bwkb  = true;
 
 			PARSE2;
 		}
@@ -2663,6 +2659,13 @@ if (icdatst.cType == CONF_SMOOTH )
 		zrestore = 1.e+20;
 	}
 
+	/* The final time can be set after the WKB time */
+	if (bwkb && (wkb2z < zFinl))
+	{
+		printf("Error: z_wkb must be > zf. No WKB will be done!\n");
+		exit(1);
+	}
+
 	/* make sure that endredmap endredmapwkb makes sense */
 	{
 		int siN = (int) sizeN;
-- 
2.43.0


From cb3c2538efcf65ea096a646d55d733e7ac077f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:18 +0000
Subject: [PATCH 55/82] fix: --verbose 0 and --verbose 2 left the verbosity at
 its default

---
 lib/utils/parse.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/utils/parse.cpp b/lib/utils/parse.cpp
index 1df6fdc..e946de7 100755
--- a/lib/utils/parse.cpp
+++ b/lib/utils/parse.cpp
@@ -607,9 +607,9 @@ int	parseDims (int argc, char *argv[])
 			int mocho;
 			sscanf(argv[i+1], "%d", reinterpret_cast<int*>(&mocho));
 
-			if (mocho > VERB_HIGH)      verb = VERB_HIGH;      //2
-			if (mocho > VERB_PARANOID)  verb = VERB_PARANOID;  //3
-			if (mocho < VERB_SILENT)    verb = VERB_SILENT;    //0
+			if (mocho < VERB_SILENT)    mocho = VERB_SILENT;    //0
+			if (mocho > VERB_PARANOID)  mocho = VERB_PARANOID;  //3
+			verb = (VerbosityLevel) mocho;
 
 
 			i++;
-- 
2.43.0


From 63d9312ec70760e35d5dfd4d80b63e12480898f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:03 +0000
Subject: [PATCH 56/82] fix: axiton tracker options depended on their order,
 and gradients swallowed the next option

---
 lib/utils/parse.cpp | 51 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/lib/utils/parse.cpp b/lib/utils/parse.cpp
index e946de7..abcc7a1 100755
--- a/lib/utils/parse.cpp
+++ b/lib/utils/parse.cpp
@@ -697,6 +697,12 @@ int	parseArgs (int argc, char *argv[])
 	icdatst.fieldindex=FIELD_NO;
 	// Axiton tracker info. default: disabled
 	icdatst.axtinfo.nMax = -1;
+	icdatst.axtinfo.th_threshold  = -1.;   //default
+	icdatst.axtinfo.ve_threshold  = -1.;   //default
+	icdatst.axtinfo.con_threshold = -1.;   //default
+	icdatst.axtinfo.ct_threshold  = -1.;   //default
+	icdatst.axtinfo.printradius   = 1;     //default
+	icdatst.axtinfo.gradients     = false; //default
 
 	/* Default measurements */
 	deninfa.idxprint  = 0;
@@ -1992,19 +1998,13 @@ int	parseArgs (int argc, char *argv[])
 
 		if (!strcmp(argv[i], "--axitontracker"))
 		{
-			icdatst.axtinfo.th_threshold = -1.;   //default
-			icdatst.axtinfo.ve_threshold = -1.;   //default
-			icdatst.axtinfo.ct_threshold = -1.;   //default
-			icdatst.axtinfo.printradius  = 1;     //default
-			icdatst.axtinfo.gradients    = false; //default
-
 			char ff[] = "-";
-			if (argv[i+1][0] == ff[0]){
+			if ((i+1 == argc) || (argv[i+1][0] == ff[0])){
 				icdatst.axtinfo.nMax = -2; //default
 				PARSE1;
 			}
 			else {
-				sscanf(argv[i+1], "%zu", &icdatst.axtinfo.nMax);
+				sscanf(argv[i+1], "%d", &icdatst.axtinfo.nMax);
 				PARSE2;
 			}
 
@@ -2012,6 +2012,12 @@ int	parseArgs (int argc, char *argv[])
 
 		if (!strcmp(argv[i], "--axitontracker.th_threshold"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need a value for the axiton tracker.\n");
+				exit(1);
+			}
+
 			// sscanf(argv[i+1], "%zu", &icdatst.axtinfo.th_threshold);
       icdatst.axtinfo.th_threshold = atof(argv[i+1]);
 			PARSE2;
@@ -2019,6 +2025,12 @@ int	parseArgs (int argc, char *argv[])
 
 		if (!strcmp(argv[i], "--axitontracker.vh_threshold"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need a value for the axiton tracker.\n");
+				exit(1);
+			}
+
 			// sscanf(argv[i+1], "%zu", &icdatst.axtinfo.ve_threshold);
       icdatst.axtinfo.ve_threshold = atof(argv[i+1]);
 			PARSE2;
@@ -2026,6 +2038,12 @@ int	parseArgs (int argc, char *argv[])
 
     if (!strcmp(argv[i], "--axitontracker.con_threshold"))
 		{
+			if (i+1 == argc)
+			{
+				printf("Error: I need a value for the axiton tracker.\n");
+				exit(1);
+			}
+
 			// sscanf(argv[i+1], "%zu", &icdatst.axtinfo.con_threshold);
       icdatst.axtinfo.con_threshold = atof(argv[i+1]);
 			PARSE2;
@@ -2033,21 +2051,32 @@ int	parseArgs (int argc, char *argv[])
 
 		if (!strcmp(argv[i], "--axitontracker.ct_threshold"))
 		{
-			sscanf(argv[i+1], "%zu", &icdatst.axtinfo.ct_threshold);
+			if (i+1 == argc)
+			{
+				printf("Error: I need a value for the axiton tracker.\n");
+				exit(1);
+			}
+
       icdatst.axtinfo.ct_threshold = atof(argv[i+1]);
 			PARSE2;
 		}
 
 		if (!strcmp(argv[i], "--axitontracker.printradius"))
 		{
-			sscanf(argv[i+1], "%zu", &icdatst.axtinfo.printradius);
+			if (i+1 == argc)
+			{
+				printf("Error: I need a value for the axiton tracker.\n");
+				exit(1);
+			}
+
+			sscanf(argv[i+1], "%d", &icdatst.axtinfo.printradius);
 			PARSE2;
 		}
 
 		if (!strcmp(argv[i], "--axitontracker.gradients"))
 		{
 			icdatst.axtinfo.gradients = true;
-			PARSE2;
+			PARSE1;
 		}
 
 		/* IC's*/
-- 
2.43.0


From 0c8c2db7ab8ecff20ec51fecce323176e4b9ac1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:06 +0000
Subject: [PATCH 57/82] fix: the WKB phase at constant axion mass lacked one
 power of the momentum

---
 lib/WKB/WKB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/WKB/WKB.cpp b/lib/WKB/WKB.cpp
index 91e0b98..d87e96b 100644
--- a/lib/WKB/WKB.cpp
+++ b/lib/WKB/WKB.cpp
@@ -83,7 +83,7 @@ namespace AxionWKB {
 				wIni        = sqrt(k2 + m2Ini);
 				wEnd        = sqrt(k2 + m2End);
 				// LogOut("in %f, %f\n",log((mEnd+wEnd)/(mIni+wIni)),mEnd/(wEnd+mEnd) - mIni/(wIni+mIni));
-				return 0.5*k*(log((mEnd+wEnd)/(mIni+wIni)) + mEnd/(wEnd+mEnd) - mIni/(wIni+mIni))/indi3;
+				return 0.5*k2*(log((mEnd+wEnd)/(mIni+wIni)) + mEnd/(wEnd+mEnd) - mIni/(wIni+mIni))/indi3;
 				}
 
 		mIni        = indi3*pow(zIni,nqcd/2+1) ;
-- 
2.43.0


From cc0cb0c7426869965b18ee1107a202ce4a76cef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:32 +0000
Subject: [PATCH 58/82] fix: the two-field WKB assumed one ghost slice

---
 lib/WKB/WKB.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/WKB/WKB.cpp b/lib/WKB/WKB.cpp
index d87e96b..3ddee36 100644
--- a/lib/WKB/WKB.cpp
+++ b/lib/WKB/WKB.cpp
@@ -300,7 +300,7 @@ namespace AxionWKB {
 				LogMsg(VERB_NORMAL, "done!");
 
 				// pointers for copying 1->2
-				char *mOr = static_cast<char *>(field->mCpu()) + field->Surf()*field->DataSize();
+				char *mOr = static_cast<char *>(field->mStart());
 				char *vOr = static_cast<char *>(field->vCpu());
 
 				char *mDt = static_cast<char *>(tmp->mCpu());
@@ -661,7 +661,7 @@ namespace AxionWKB {
 			std::complex<cFloat> *vInC  = static_cast<std::complex<cFloat>*>(field->vCpu());
 			//
 			// tambien necesitare punteros float a m y v de axion1
-			cFloat	      	 *mIn  = static_cast<cFloat *>(field->mCpu()) + field->Surf();	// Theta ghosts
+			cFloat	      	 *mIn  = static_cast<cFloat *>(field->mStart());	// Theta ghosts
 			cFloat	      	 *vIn  = static_cast<cFloat *>(field->vCpu());
 			cFloat	      	 *m2In = static_cast<cFloat *>(field->m2Cpu());
 
-- 
2.43.0


From 84dfbe0910a1d2c64507f95441ea228187e22236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:41 +0000
Subject: [PATCH 59/82] fix: the two-field WKB took the growing mass when it
 starts at saturation

---
 lib/WKB/WKB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/WKB/WKB.cpp b/lib/WKB/WKB.cpp
index 3ddee36..08a9a1e 100644
--- a/lib/WKB/WKB.cpp
+++ b/lib/WKB/WKB.cpp
@@ -615,7 +615,7 @@ namespace AxionWKB {
 			double aMass2zIni1 = aMass2zIni2/zIni;
 			double aMass2zEnd1 = aMass2zEnd2/zEnd;
 			double nQcd				 = field->BckGnd()->QcdExp();
-			if (zEnd > field->BckGnd()->ZThRes() && zIni > field->BckGnd()->ZThRes())
+			if (zEnd > field->BckGnd()->ZThRes() && zIni >= field->BckGnd()->ZThRes())
 				nQcd = 0.0;
 			double zBase1      = 0.25*(nQcd+2.)*aMass2zIni1;
 			double zBase2      = 0.25*(nQcd+2.)*aMass2zEnd1;
-- 
2.43.0


From 00cad3abb346b0ccf8734529213de135ebfbd980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:41 +0000
Subject: [PATCH 60/82] fix: the WKB crashed where its lookup table could not
 be written

---
 lib/WKB/WKB.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/WKB/WKB.cpp b/lib/WKB/WKB.cpp
index 08a9a1e..9b1263a 100644
--- a/lib/WKB/WKB.cpp
+++ b/lib/WKB/WKB.cpp
@@ -409,9 +409,13 @@ namespace AxionWKB {
 	char base[256];
 	sprintf(base, "out/lookup-%0.2f>%0.2f.txt", zIni,zEnd);
 	file_wk = fopen(base,"w+");
-	for (size_t i=0; i<powMax; i++)
-		fprintf(file_wk,"%lf %lf\n",k2Table[i], superTable[i]);
-	fclose(file_wk);
+	if (file_wk == NULL)
+		LogMsg(VERB_NORMAL,"[WKB] could not write the lookup table to %s",base);
+	else {
+		for (size_t i=0; i<powMax; i++)
+			fprintf(file_wk,"%lf %lf\n",k2Table[i], superTable[i]);
+		fclose(file_wk);
+	}
 	}
 		tk::spline sss;
 		sss.set_points(k2Table,superTable);
-- 
2.43.0


From 55a0033a3a8f6b0e93530a1b11aed531beb80e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:54 +0000
Subject: [PATCH 61/82] fix: the two-field WKB copied past the end of the
 velocity with wide ghosts

---
 lib/WKB/WKB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/WKB/WKB.cpp b/lib/WKB/WKB.cpp
index 9b1263a..6a0b5f2 100644
--- a/lib/WKB/WKB.cpp
+++ b/lib/WKB/WKB.cpp
@@ -828,7 +828,7 @@ namespace AxionWKB {
 			LogMsg(VERB_NORMAL,"done!\n\n ");
 
 			LogMsg(VERB_NORMAL,"and FT(psi_z) v->m2 ");
-			memcpy	(m2Tf, vTf, field->eSize()*field->DataSize());
+			memcpy	(m2Tf, vTf, padLine*Sm);
 			LogMsg(VERB_NORMAL,"done!\n");
 
 			LogMsg(VERB_NORMAL," invFFTWing AXION m2 inplace ... ");
-- 
2.43.0


From b89e8db1e72baabe9bad45ab80336a566a093ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:33 +0000
Subject: [PATCH 62/82] fix: the histograms of the field started inside the
 ghost slices with more than one of them

---
 lib/meas/measa.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/meas/measa.cpp b/lib/meas/measa.cpp
index 83147ef..84ad710 100755
--- a/lib/meas/measa.cpp
+++ b/lib/meas/measa.cpp
@@ -849,7 +849,7 @@ writePMapHdf5s (axiona, LAB);
 					// complex<Float> shhhs = (shs,0.);
 					// Binner<3000,complex<Float>> thBin(static_cast<complex<Float> *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
 					// 				 [s=shhhs] (complex<Float> x) { return (double) arg(x-s); });
-					Binner<3000,complex<Float>> thBin(static_cast<complex<Float> *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
+					Binner<3000,complex<Float>> thBin(static_cast<complex<Float> *>(axiona->mStart()), axiona->Size(),
 									 [] (complex<Float> x) { return (double) arg(x); });
 					thBin.run();
 					writeBinner(thBin, "/bins", "thetaB");
@@ -864,7 +864,7 @@ writePMapHdf5s (axiona, LAB);
 					// complex<Float> shhhs = (shs,0.);
 					// Binner<3000,complex<Float>> rhoBin(static_cast<complex<Float> *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
 					// 					[z=z_now,s=shhhs] (complex<Float> x) { return (double) abs(x-s)/z; } );
-					Binner<3000,complex<Float>> rhoBin(static_cast<complex<Float> *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
+					Binner<3000,complex<Float>> rhoBin(static_cast<complex<Float> *>(axiona->mStart()), axiona->Size(),
 										[z=R_now] (complex<Float> x) { return (double) abs(x)/z; } );
 					rhoBin.run();
 					writeBinner(rhoBin, "/bins", "rhoB");
@@ -873,7 +873,7 @@ writePMapHdf5s (axiona, LAB);
 					{
 						// LogOut("binL ");
 						LogMsg(VERB_NORMAL, "[Meas %d] bin log10 theta^2 ",indexa);
-						Binner<3000,complex<Float>> logth2Bin(static_cast<complex<Float> *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
+						Binner<3000,complex<Float>> logth2Bin(static_cast<complex<Float> *>(axiona->mStart()), axiona->Size(),
 										 [] (complex<Float> x) { return (double) log10(1.0e-10+pow(arg(x),2)); });
 						logth2Bin.run();
 						writeBinner(logth2Bin, "/bins", "logtheta2B");
@@ -884,7 +884,7 @@ writePMapHdf5s (axiona, LAB);
 		{
 			// LogOut("binthetha ");
 			LogMsg(VERB_NORMAL, "[Meas %d] bin theta ",indexa);
-				Binner<3000,Float> thBin(static_cast<Float *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
+				Binner<3000,Float> thBin(static_cast<Float *>(axiona->mStart()), axiona->Size(),
 								 [z=R_now] (Float x) { return (double) (x/z); });
 				thBin.run();
 				writeBinner(thBin, "/bins", "thetaB");
@@ -898,7 +898,7 @@ writePMapHdf5s (axiona, LAB);
 				{
 					// LogOut("bintt2 ");
 					LogMsg(VERB_NORMAL, "[Meas %d] bin log10 theta^2 ",indexa);
-					Binner<3000,Float> logth2Bin2(static_cast<Float *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
+					Binner<3000,Float> logth2Bin2(static_cast<Float *>(axiona->mStart()), axiona->Size(),
 									 [z=R_now] (Float x) -> float { return (double) log10(1.0e-10+pow(x/z,2)); });
 					logth2Bin2.run();
 					writeBinner(logth2Bin2, "/bins", "logtheta2B");
-- 
2.43.0


From ba74080d2c94b4f63d0abef0314a7fd39892f9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:34 +0000
Subject: [PATCH 63/82] fix: spectra with the second axiton mask were computed
 without building the mask

---
 lib/meas/measa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/meas/measa.cpp b/lib/meas/measa.cpp
index 84ad710..4f3f5fd 100755
--- a/lib/meas/measa.cpp
+++ b/lib/meas/measa.cpp
@@ -571,7 +571,7 @@ writePMapHdf5s (axiona, LAB);
 			char LABEL[256];
 			string           masklab[9] = {"0", "Vi", "Vi2", "Bal", "Red", "Gau", "Dif", "Axit", "Axit2"};
 			SpectrumMaskType maskara[9] = {SPMASK_FLAT,SPMASK_VIL,SPMASK_VIL2,SPMASK_BALL,SPMASK_REDO,SPMASK_GAUS,SPMASK_DIFF,SPMASK_AXIT,SPMASK_AXIT2};
-			bool             prntmsk[9] = {false,true,true,true,true,true,true,true};
+			bool             prntmsk[9] = {false,true,true,true,true,true,true,true,true};
 			bool             mulmask[9] = {false,false,false,true,true,true,true,true,true};
 
 			LogMsg(VERB_NORMAL, "[Meas %d] masks are %d",indexa,mask);LogFlush();
-- 
2.43.0


From ef0ff0422849f65340447f2619c6a853e875990e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:34 +0000
Subject: [PATCH 64/82] fix: asking for both energy projections ended the
 program at the second

---
 lib/meas/measa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/meas/measa.cpp b/lib/meas/measa.cpp
index 4f3f5fd..916efc5 100755
--- a/lib/meas/measa.cpp
+++ b/lib/meas/measa.cpp
@@ -274,7 +274,7 @@ MeasData	Measureme  (Scalar *axiona, MeasInfo info)
 							else {
 								projectField	(axiona, [] (float x) -> float { return x*x ; } );
 							}
-								writePMapHdf5 (axiona);
+								writePMapHdf5s (axiona, (info.maty & MAPT_XYPE) ? (char *) "/map/P2" : (char *) "/map/P");
 				}
 			}
 
-- 
2.43.0


From a8e9b7cf6bd60807d0d9387250f4e0bd73e6dea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:34 +0000
Subject: [PATCH 65/82] fix: the reduced energy map was the smoothed one when
 the multi contrast tool ran before it

---
 lib/meas/measa.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/meas/measa.cpp b/lib/meas/measa.cpp
index 916efc5..f1a06fb 100755
--- a/lib/meas/measa.cpp
+++ b/lib/meas/measa.cpp
@@ -375,6 +375,11 @@ writePMapHdf5s (axiona, LAB);
 										size_t nLz = (axiona->Depth()*redmap)/axiona->Length();
 										LogMsg(VERB_NORMAL, "[Meas %d] reduced energy map from Nx,Nz=%d,%d to Nx'Nz'=%d,%d by smoothing",indexa, axiona->Depth()*commSize(),
 										redmap, nLz*commSize());
+										/* the multi contrast tool leaves the smoothed energy in m2 and the modes of the energy in m2h */
+										if (axiona->m2Status() == M2_ENERGY_SMOOTH && axiona->m2hStatus() == M2_ENERGY_FFT) {
+											memcpy (axiona->m2Cpu(), axiona->m2half(), (axiona->Length()+2)*axiona->Length()*axiona->Depth()*axiona->Precision());
+											axiona->setM2(M2_ENERGY_FFT);
+										}
 										double ScaleSize = ((double) axiona->Length())/((double) redmap);
 										double eFc  = 0.5*M_PI*M_PI*(ScaleSize*ScaleSize)/((double) axiona->Surf());
 										// size_t nLz = redmap / commSize();
-- 
2.43.0


From 4ae2398384993ed0c28fce85676392673c11dca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:50 +0000
Subject: [PATCH 66/82] fix: spectra with a mask and no radius given read past
 the end of the radii instead of using the default

---
 lib/meas/measa.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/meas/measa.cpp b/lib/meas/measa.cpp
index f1a06fb..37ff43c 100755
--- a/lib/meas/measa.cpp
+++ b/lib/meas/measa.cpp
@@ -83,7 +83,8 @@ MeasData	Measureme  (Scalar *axiona, MeasInfo info)
 	/* Patch to make the cases where no radius is needed to work */
 	if ( irmask == 0 ){
 		irmask = 1;
-		rmasktab.push_back(0.0);
+		rmasktab.push_back(radius_mask);
+		rmasklabel.push_back(radius_mask);
 	}
 	LogMsg(VERB_PARANOID,"[Meas ...] rmask %.2f ",radius_mask);
 	LogMsg(VERB_HIGH,    "[Meas ...] number of mask radii %d ",irmask);
-- 
2.43.0


From f8fce85f491c05d9783fa656a0c975e1a2177bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:29 +0000
Subject: [PATCH 67/82] fix: reading the tracked axitons ended without
 returning a value

---
 include/axiton/trackerClass.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/axiton/trackerClass.h b/include/axiton/trackerClass.h
index db37982..9803219 100644
--- a/include/axiton/trackerClass.h
+++ b/include/axiton/trackerClass.h
@@ -313,6 +313,8 @@
 		commSync();
 		LogMsg(VERB_HIGH," [UA] Axitons read, index = %d (number of times?)",index);
 
+		return index;
+
 	}
 
 
-- 
2.43.0


From 4f359e00f259f4bc44489ab4300f967b00f78b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:29 +0000
Subject: [PATCH 68/82] fix: axitons were read at the wrong site of an unfolded
 field

---
 include/axiton/trackerClass.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/axiton/trackerClass.h b/include/axiton/trackerClass.h
index 9803219..c451cde 100644
--- a/include/axiton/trackerClass.h
+++ b/include/axiton/trackerClass.h
@@ -298,12 +298,7 @@
 			#pragma omp parallel for schedule(static)
 			for (int iidx = 0 ; iidx < idxlist.size(); iidx++)
 			{
-					size_t fidx = Axilist[iidx].Idx();
-					size_t X[3];
-					indexXeon::idx2Vec (fidx, X, Lx);
-					size_t sy  = X[1]/(Lx/shift);
-					size_t iiy = X[1] - (sy*Lx/shift);
-					size_t idx = X[2]*S + shift*(iiy*Lx+X[0]) +sy;
+					size_t idx = unfoldidx(Axilist[iidx].Idx());
 					Axilist[iidx].AddPoint( (double) m[idx], (double) v[idx]);
 					/* energy? */
 			}
-- 
2.43.0


From 4ca9ff1c3f1cd2e86209a0c2ea26572b0f541459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:30 +0000
Subject: [PATCH 69/82] fix: axitons of later processes were lost or invented
 when two in a row had none

---
 include/axiton/trackerClass.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/axiton/trackerClass.h b/include/axiton/trackerClass.h
index c451cde..9349220 100644
--- a/include/axiton/trackerClass.h
+++ b/include/axiton/trackerClass.h
@@ -785,7 +785,7 @@ LogMsg(VERB_HIGH,"Total %d",nAx_l);
 	int locax = 0;
 	for (int i = 0 ; i < nAx_l ; i++  )
 	{
-		if (locax > nAx[writtingrank]-1){
+		while (locax > nAx[writtingrank]-1){
 			writtingrank++;
 			locax = 0;
 		}
-- 
2.43.0


From c169e178523289789f8cd2875788b0a60b18b77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:11 +0000
Subject: [PATCH 70/82] fix: HubbleConformal is R'/R in the radiation era too,
 not zero

---
 lib/scalar/scalarField.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 6b37a06..1766422 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -1199,13 +1199,8 @@ double  Scalar::Rpp  ()
 
 double  Scalar::HubbleConformal  ()
 {
-	// R'/R = frw/z
-	// since we have R=z^frw
-	//except in the case where frw = 0,1
-	int fr = (int) bckgnd->Frw();
-	double Rp = (fr == 0 || fr == 1) ? 0.0 : (bckgnd->Frw())/(*zV());
-	LogMsg(VERB_PARANOID,"[sca:HC] %.2e (legacy!)",Rp);
-	return Rp ;
+	// R'/R
+	return bckgnd->Rp(*z);
 }
 
 double	Scalar::AxionMass  () {
-- 
2.43.0


From 6e1b224a88e6c5968491dce1c2c072827e93ce25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:11 +0000
Subject: [PATCH 71/82] fix: string length counts all three segments of a cube
 pierced by three strings

---
 lib/strings/length.cpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/lib/strings/length.cpp b/lib/strings/length.cpp
index aef5713..0e373c1 100644
--- a/lib/strings/length.cpp
+++ b/lib/strings/length.cpp
@@ -233,49 +233,49 @@ StringData	stringlength	(Scalar *field, StringData strDen_in, StringMeasureType
 						// three strings are piercing the cube
 						// we consider 15 possible connection patterns and average over them
 						double dl1 = sqrt((pos_x.at(1)-pos_x.at(0))*(pos_x.at(1)-pos_x.at(0))+(pos_y.at(1)-pos_y.at(0))*(pos_y.at(1)-pos_y.at(0))+(pos_z.at(1)-pos_z.at(0))*(pos_z.at(1)-pos_z.at(0)))
-					             + sqrt((pos_x.at(3)-pos_x.at(2))*(pos_x.at(3)-pos_x.at(2))+(pos_y.at(3)-pos_y.at(2))*(pos_y.at(3)-pos_y.at(2))+(pos_z.at(3)-pos_z.at(2))*(pos_z.at(3)-pos_z.at(2)));
+					             + sqrt((pos_x.at(3)-pos_x.at(2))*(pos_x.at(3)-pos_x.at(2))+(pos_y.at(3)-pos_y.at(2))*(pos_y.at(3)-pos_y.at(2))+(pos_z.at(3)-pos_z.at(2))*(pos_z.at(3)-pos_z.at(2)))
 						  				 + sqrt((pos_x.at(5)-pos_x.at(4))*(pos_x.at(5)-pos_x.at(4))+(pos_y.at(5)-pos_y.at(4))*(pos_y.at(5)-pos_y.at(4))+(pos_z.at(5)-pos_z.at(4))*(pos_z.at(5)-pos_z.at(4)));
 					  double dl2 = sqrt((pos_x.at(1)-pos_x.at(0))*(pos_x.at(1)-pos_x.at(0))+(pos_y.at(1)-pos_y.at(0))*(pos_y.at(1)-pos_y.at(0))+(pos_z.at(1)-pos_z.at(0))*(pos_z.at(1)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(4)-pos_x.at(2))*(pos_x.at(4)-pos_x.at(2))+(pos_y.at(4)-pos_y.at(2))*(pos_y.at(4)-pos_y.at(2))+(pos_z.at(4)-pos_z.at(2))*(pos_z.at(4)-pos_z.at(2)));
+					 	  				 + sqrt((pos_x.at(4)-pos_x.at(2))*(pos_x.at(4)-pos_x.at(2))+(pos_y.at(4)-pos_y.at(2))*(pos_y.at(4)-pos_y.at(2))+(pos_z.at(4)-pos_z.at(2))*(pos_z.at(4)-pos_z.at(2)))
 					 	  				 + sqrt((pos_x.at(5)-pos_x.at(3))*(pos_x.at(5)-pos_x.at(3))+(pos_y.at(5)-pos_y.at(3))*(pos_y.at(5)-pos_y.at(3))+(pos_z.at(5)-pos_z.at(3))*(pos_z.at(5)-pos_z.at(3)));
 					  double dl3 = sqrt((pos_x.at(1)-pos_x.at(0))*(pos_x.at(1)-pos_x.at(0))+(pos_y.at(1)-pos_y.at(0))*(pos_y.at(1)-pos_y.at(0))+(pos_z.at(1)-pos_z.at(0))*(pos_z.at(1)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(5)-pos_x.at(2))*(pos_x.at(5)-pos_x.at(2))+(pos_y.at(5)-pos_y.at(2))*(pos_y.at(5)-pos_y.at(2))+(pos_z.at(5)-pos_z.at(2))*(pos_z.at(5)-pos_z.at(2)));
+					 	  				 + sqrt((pos_x.at(5)-pos_x.at(2))*(pos_x.at(5)-pos_x.at(2))+(pos_y.at(5)-pos_y.at(2))*(pos_y.at(5)-pos_y.at(2))+(pos_z.at(5)-pos_z.at(2))*(pos_z.at(5)-pos_z.at(2)))
 					 		  			 + sqrt((pos_x.at(3)-pos_x.at(4))*(pos_x.at(3)-pos_x.at(4))+(pos_y.at(3)-pos_y.at(4))*(pos_y.at(3)-pos_y.at(4))+(pos_z.at(3)-pos_z.at(4))*(pos_z.at(3)-pos_z.at(4)));
 				    double dl4 = sqrt((pos_x.at(2)-pos_x.at(0))*(pos_x.at(2)-pos_x.at(0))+(pos_y.at(2)-pos_y.at(0))*(pos_y.at(2)-pos_y.at(0))+(pos_z.at(2)-pos_z.at(0))*(pos_z.at(2)-pos_z.at(0)))
-						  				 + sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)));
+						  				 + sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)))
 							  			 + sqrt((pos_x.at(5)-pos_x.at(4))*(pos_x.at(5)-pos_x.at(4))+(pos_y.at(5)-pos_y.at(4))*(pos_y.at(5)-pos_y.at(4))+(pos_z.at(5)-pos_z.at(4))*(pos_z.at(5)-pos_z.at(4)));
 					  double dl5 = sqrt((pos_x.at(2)-pos_x.at(0))*(pos_x.at(2)-pos_x.at(0))+(pos_y.at(2)-pos_y.at(0))*(pos_y.at(2)-pos_y.at(0))+(pos_z.at(2)-pos_z.at(0))*(pos_z.at(2)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)));
+					 	  				 + sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)))
 					 		  			 + sqrt((pos_x.at(5)-pos_x.at(3))*(pos_x.at(5)-pos_x.at(3))+(pos_y.at(5)-pos_y.at(3))*(pos_y.at(5)-pos_y.at(3))+(pos_z.at(5)-pos_z.at(3))*(pos_z.at(5)-pos_z.at(3)));
 					  double dl6 = sqrt((pos_x.at(2)-pos_x.at(0))*(pos_x.at(2)-pos_x.at(0))+(pos_y.at(2)-pos_y.at(0))*(pos_y.at(2)-pos_y.at(0))+(pos_z.at(2)-pos_z.at(0))*(pos_z.at(2)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)));
+					 	  				 + sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)))
 					 	  				 + sqrt((pos_x.at(3)-pos_x.at(4))*(pos_x.at(3)-pos_x.at(4))+(pos_y.at(3)-pos_y.at(4))*(pos_y.at(3)-pos_y.at(4))+(pos_z.at(3)-pos_z.at(4))*(pos_z.at(3)-pos_z.at(4)));
 					  double dl7 = sqrt((pos_x.at(3)-pos_x.at(0))*(pos_x.at(3)-pos_x.at(0))+(pos_y.at(3)-pos_y.at(0))*(pos_y.at(3)-pos_y.at(0))+(pos_z.at(3)-pos_z.at(0))*(pos_z.at(3)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)));
+					 	  				 + sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)))
 					 		  			 + sqrt((pos_x.at(5)-pos_x.at(4))*(pos_x.at(5)-pos_x.at(4))+(pos_y.at(5)-pos_y.at(4))*(pos_y.at(5)-pos_y.at(4))+(pos_z.at(5)-pos_z.at(4))*(pos_z.at(5)-pos_z.at(4)));
 					  double dl8 = sqrt((pos_x.at(3)-pos_x.at(0))*(pos_x.at(3)-pos_x.at(0))+(pos_y.at(3)-pos_y.at(0))*(pos_y.at(3)-pos_y.at(0))+(pos_z.at(3)-pos_z.at(0))*(pos_z.at(3)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)));
+					 	  				 + sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)))
 					 		  			 + sqrt((pos_x.at(5)-pos_x.at(2))*(pos_x.at(5)-pos_x.at(2))+(pos_y.at(5)-pos_y.at(2))*(pos_y.at(5)-pos_y.at(2))+(pos_z.at(5)-pos_z.at(2))*(pos_z.at(5)-pos_z.at(2)));
 					  double dl9 = sqrt((pos_x.at(3)-pos_x.at(0))*(pos_x.at(3)-pos_x.at(0))+(pos_y.at(3)-pos_y.at(0))*(pos_y.at(3)-pos_y.at(0))+(pos_z.at(3)-pos_z.at(0))*(pos_z.at(3)-pos_z.at(0)))
-					 	  				 + sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)));
+					 	  				 + sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)))
 					 	  				 + sqrt((pos_x.at(2)-pos_x.at(4))*(pos_x.at(2)-pos_x.at(4))+(pos_y.at(2)-pos_y.at(4))*(pos_y.at(2)-pos_y.at(4))+(pos_z.at(2)-pos_z.at(4))*(pos_z.at(2)-pos_z.at(4)));
 					  double dl10 = sqrt((pos_x.at(4)-pos_x.at(0))*(pos_x.at(4)-pos_x.at(0))+(pos_y.at(4)-pos_y.at(0))*(pos_y.at(4)-pos_y.at(0))+(pos_z.at(4)-pos_z.at(0))*(pos_z.at(4)-pos_z.at(0)))
-					 	  				  + sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)));
+					 	  				  + sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)))
 					 		  			  + sqrt((pos_x.at(5)-pos_x.at(3))*(pos_x.at(5)-pos_x.at(3))+(pos_y.at(5)-pos_y.at(3))*(pos_y.at(5)-pos_y.at(3))+(pos_z.at(5)-pos_z.at(3))*(pos_z.at(5)-pos_z.at(3)));
 					  double dl11 = sqrt((pos_x.at(4)-pos_x.at(0))*(pos_x.at(4)-pos_x.at(0))+(pos_y.at(4)-pos_y.at(0))*(pos_y.at(4)-pos_y.at(0))+(pos_z.at(4)-pos_z.at(0))*(pos_z.at(4)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)))
 							  				+ sqrt((pos_x.at(5)-pos_x.at(2))*(pos_x.at(5)-pos_x.at(2))+(pos_y.at(5)-pos_y.at(2))*(pos_y.at(5)-pos_y.at(2))+(pos_z.at(5)-pos_z.at(2))*(pos_z.at(5)-pos_z.at(2)));
 					  double dl12 = sqrt((pos_x.at(4)-pos_x.at(0))*(pos_x.at(4)-pos_x.at(0))+(pos_y.at(4)-pos_y.at(0))*(pos_y.at(4)-pos_y.at(0))+(pos_z.at(4)-pos_z.at(0))*(pos_z.at(4)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(5)-pos_x.at(1))*(pos_x.at(5)-pos_x.at(1))+(pos_y.at(5)-pos_y.at(1))*(pos_y.at(5)-pos_y.at(1))+(pos_z.at(5)-pos_z.at(1))*(pos_z.at(5)-pos_z.at(1)))
 							  				+ sqrt((pos_x.at(2)-pos_x.at(3))*(pos_x.at(2)-pos_x.at(3))+(pos_y.at(2)-pos_y.at(3))*(pos_y.at(2)-pos_y.at(3))+(pos_z.at(2)-pos_z.at(3))*(pos_z.at(2)-pos_z.at(3)));
 					  double dl13 = sqrt((pos_x.at(5)-pos_x.at(0))*(pos_x.at(5)-pos_x.at(0))+(pos_y.at(5)-pos_y.at(0))*(pos_y.at(5)-pos_y.at(0))+(pos_z.at(5)-pos_z.at(0))*(pos_z.at(5)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(2)-pos_x.at(1))*(pos_x.at(2)-pos_x.at(1))+(pos_y.at(2)-pos_y.at(1))*(pos_y.at(2)-pos_y.at(1))+(pos_z.at(2)-pos_z.at(1))*(pos_z.at(2)-pos_z.at(1)))
 						  					+ sqrt((pos_x.at(4)-pos_x.at(3))*(pos_x.at(4)-pos_x.at(3))+(pos_y.at(4)-pos_y.at(3))*(pos_y.at(4)-pos_y.at(3))+(pos_z.at(4)-pos_z.at(3))*(pos_z.at(4)-pos_z.at(3)));
 					  double dl14 = sqrt((pos_x.at(5)-pos_x.at(0))*(pos_x.at(5)-pos_x.at(0))+(pos_y.at(5)-pos_y.at(0))*(pos_y.at(5)-pos_y.at(0))+(pos_z.at(5)-pos_z.at(0))*(pos_z.at(5)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(3)-pos_x.at(1))*(pos_x.at(3)-pos_x.at(1))+(pos_y.at(3)-pos_y.at(1))*(pos_y.at(3)-pos_y.at(1))+(pos_z.at(3)-pos_z.at(1))*(pos_z.at(3)-pos_z.at(1)))
 							  			  + sqrt((pos_x.at(4)-pos_x.at(2))*(pos_x.at(4)-pos_x.at(2))+(pos_y.at(4)-pos_y.at(2))*(pos_y.at(4)-pos_y.at(2))+(pos_z.at(4)-pos_z.at(2))*(pos_z.at(4)-pos_z.at(2)));
 					  double dl15 = sqrt((pos_x.at(5)-pos_x.at(0))*(pos_x.at(5)-pos_x.at(0))+(pos_y.at(5)-pos_y.at(0))*(pos_y.at(5)-pos_y.at(0))+(pos_z.at(5)-pos_z.at(0))*(pos_z.at(5)-pos_z.at(0)))
-						  					+ sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)));
+						  					+ sqrt((pos_x.at(4)-pos_x.at(1))*(pos_x.at(4)-pos_x.at(1))+(pos_y.at(4)-pos_y.at(1))*(pos_y.at(4)-pos_y.at(1))+(pos_z.at(4)-pos_z.at(1))*(pos_z.at(4)-pos_z.at(1)))
 						  				  + sqrt((pos_x.at(2)-pos_x.at(3))*(pos_x.at(2)-pos_x.at(3))+(pos_y.at(2)-pos_y.at(3))*(pos_y.at(2)-pos_y.at(3))+(pos_z.at(2)-pos_z.at(3))*(pos_z.at(2)-pos_z.at(3)));
 					  length += (dl1 + dl2 + dl3 + dl4 + dl5 + dl6 + dl7 + dl8 + dl9 + dl10 + dl11 + dl12 + dl13 + dl14 + dl15)/15.;
 				  }
-- 
2.43.0


From 1005b90d33986e9eb3245934f38bbf64132c1c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:11 +0000
Subject: [PATCH 72/82] fix: string length includes the cubes between two ranks
 and across the boundary

---
 lib/strings/length.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/strings/length.cpp b/lib/strings/length.cpp
index 0e373c1..bd0554b 100644
--- a/lib/strings/length.cpp
+++ b/lib/strings/length.cpp
@@ -88,12 +88,9 @@ void setCross (std::complex<double> m, std::complex<double> mu, std::complex<dou
 // Function that calculates the length of strings
 // -----------------------------------------------------
 
-	/* As it is written, it requires string information from
-	the slice forward in z, but stringData is not ghosted,
-	and so the last slice cannot be computed reliably,
-	the plaquette XY at Z+1 does not exist in the desired rank
-	THIS NEEDS TO BE FIXED
-	The current PATCH simply ignores the problematic plaquettes */
+	/* It requires string information from the slice forward in z,
+	but stringData is not ghosted, so the flags of that slice are
+	exchanged with the neighbour ranks */
 
 template<typename Float>
 StringData	stringlength	(Scalar *field, StringData strDen_in, StringMeasureType strmeas)
@@ -146,6 +143,11 @@ StringData	stringlength	(Scalar *field, StringData strDen_in, StringMeasureType
 
 		double length = 0.;
 
+		// the far XY plaquettes of the last slice belong to the next rank
+		std::vector<char> strNext(Lx*Lx);
+		field->sendGeneral(COMM_SDRV, Lx*Lx, MPI_BYTE, strdaa, strNext.data(), nullptr, nullptr);
+		field->sendGeneral(COMM_WAIT, Lx*Lx, MPI_BYTE, strdaa, strNext.data(), nullptr, nullptr);
+
 		#pragma omp parallel for reduction(+:length)
 		for (size_t iz=0; iz < Lz; iz++) {
 			size_t zi = Lx*Lx*iz ;
@@ -205,9 +207,7 @@ StringData	stringlength	(Scalar *field, StringData strDen_in, StringMeasureType
 						pos_y.push_back(iy + 1.);
 						pos_z.push_back(rank*Lz + iz + du[0]);
 					}
-					/* In the case iz = Lz-1 this would segfault */
-					if ( iz < Lz - 1 )
-					if (strdaa[izM] & STRING_XY) {
+					if (((iz < Lz - 1) ? strdaa[izM] : strNext[ix + yi]) & STRING_XY) {
 						double du[2];
 						setCross(ma[izM],ma[izxM],ma[iyzM],ma[ixyzM],du);
 						pos_x.push_back(ix + du[0]);
-- 
2.43.0


From f8cfb2dafc19232225d9562ed206c6f2ac062370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:11 +0000
Subject: [PATCH 73/82] fix: string velocity exchanges the velocity of the
 slice after the last

---
 lib/strings/length.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/strings/length.cpp b/lib/strings/length.cpp
index bd0554b..0248091 100644
--- a/lib/strings/length.cpp
+++ b/lib/strings/length.cpp
@@ -314,6 +314,11 @@ StringData	stringlength	(Scalar *field, StringData strDen_in, StringMeasureType
 
 		std::complex<Float> *va     = static_cast<std::complex<Float>*>(field->vCpu());
 
+		// the plaquettes of the last slice need the velocity of the next one
+		const size_t vBytes = Lx*Lx*sizeof(std::complex<Float>);
+		field->sendGeneral(COMM_SDRV, vBytes, MPI_BYTE, va, field->vGhost(), nullptr, nullptr);
+		field->sendGeneral(COMM_WAIT, vBytes, MPI_BYTE, va, field->vGhost(), nullptr, nullptr);
+
 		#pragma omp parallel for reduction(+:gamma,gamma2,vel,vel2)
 		for (size_t iz=0; iz < Lz; iz++) {
 			size_t zi = Lx*Lx*iz ;
-- 
2.43.0


From 6245755b1546d0daa47b6d4e56114f0a4ab535f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:11 +0000
Subject: [PATCH 74/82] fix: mean string energies divide by the lattice sites,
 not by a cube

---
 lib/strings/length.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/strings/length.cpp b/lib/strings/length.cpp
index 0248091..6f20f6a 100644
--- a/lib/strings/length.cpp
+++ b/lib/strings/length.cpp
@@ -947,10 +947,10 @@ StringEnergyData stringenergy (Scalar *field)
 
 	strE.rho_a   = rhoa_sum/nout_sum;
 	strE.rho_s   = rhos_sum/nout_sum;
-	strE.rho_str = rhotot_sum/(Lx*Lx*Lx) - strE.rho_a - strE.rho_s;
-	strE.rho_a_Vil = rhoaV_sum/(Lx*Lx*Lx);
-	strE.rho_s_Vil = rhosV_sum/(Lx*Lx*Lx);
-	strE.rho_str_Vil = rhotot_sum/(Lx*Lx*Lx) - strE.rho_a_Vil - strE.rho_s_Vil;
+	strE.rho_str = rhotot_sum/((double) field->TotalSize()) - strE.rho_a - strE.rho_s;
+	strE.rho_a_Vil = rhoaV_sum/((double) field->TotalSize());
+	strE.rho_s_Vil = rhosV_sum/((double) field->TotalSize());
+	strE.rho_str_Vil = rhotot_sum/((double) field->TotalSize()) - strE.rho_a_Vil - strE.rho_s_Vil;
 	strE.nout = nout_sum;
 
 	commSync();
-- 
2.43.0


From ce55657678e2d894f84931388f0e3d4210c304be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:38 +0000
Subject: [PATCH 75/82] fix: the reach of masking balls beyond a slab could
 lose against a shorter one of another thread

---
 lib/spectrum/spectrum.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/spectrum/spectrum.cpp b/lib/spectrum/spectrum.cpp
index 9c82d70..b324a3e 100755
--- a/lib/spectrum/spectrum.cpp
+++ b/lib/spectrum/spectrum.cpp
@@ -629,8 +629,12 @@ void	SpecBin::maskball	(double radius_mask, char DEFECT_LABEL, char MASK_LABEL)
 										 	aux = mFG[(size_t) Ly*yii+xii];
 
 										if ( load > aux ){
-											#pragma omp atomic write
+											// another thread may have raised it meanwhile
+											#pragma omp critical (maskballF)
+											if (load > mFG[(size_t) Ly*yii+xii]) {
+												#pragma omp atomic write
 												mFG[(size_t) Ly*yii+xii] = load;
+											}
 										}
 									}
 									else {
@@ -642,8 +646,12 @@ void	SpecBin::maskball	(double radius_mask, char DEFECT_LABEL, char MASK_LABEL)
 												aux = mBG[(size_t) (Ly*yii+xii)];
 
 											if (load > aux){
-												#pragma omp atomic write
+												// another thread may have raised it meanwhile
+												#pragma omp critical (maskballB)
+												if (load > mBG[(size_t) (Ly*yii+xii)]) {
+													#pragma omp atomic write
 													mBG[(size_t) (Ly*yii+xii)] = load;
+												}
 											}
 										}
 										else
-- 
2.43.0


From eca664029ad6ee9ba273dfcbb3876334c3dbe3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:38 +0000
Subject: [PATCH 76/82] fix: masked axiton points were counted by all threads
 in one shared variable

---
 lib/spectrum/spectrum.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/spectrum/spectrum.cpp b/lib/spectrum/spectrum.cpp
index b324a3e..d141796 100755
--- a/lib/spectrum/spectrum.cpp
+++ b/lib/spectrum/spectrum.cpp
@@ -3652,7 +3652,7 @@ void	SpecBin::masker	(double radius_mask, StatusM2 out, bool l_cummask) {
 
 									int mp = 0;
 									/* I apply the cut to the unpadded */
-									#pragma omp parallel for schedule(static)
+									#pragma omp parallel for schedule(static) reduction(+:mp)
 									for (size_t idx=0; idx < V; idx++) {
 										size_t X[3];
 										indexXeon::idx2Vec (idx, X, Ly);
-- 
2.43.0


From 70016a153034d2bc4e11100b2ce4a195d0a85523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:10 +0000
Subject: [PATCH 77/82] fix: the damping of the evolution before the start
 stayed on for the run

---
 lib/gen/prepropa.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/gen/prepropa.cpp b/lib/gen/prepropa.cpp
index 9e00995..d887e0e 100644
--- a/lib/gen/prepropa.cpp
+++ b/lib/gen/prepropa.cpp
@@ -216,8 +216,8 @@ void	prepropa2  (Scalar *axiona)
 		}
 
 		if (axiona->BckGnd()->ICData().pregammo > 0.0){
-			axiona->BckGnd()->SetGamma( axiona->BckGnd()->Gamma());
-			LogMsg(VERB_NORMAL,"[prep] ReSet damping to gam = %f (was %f)",axiona->BckGnd()->Gamma(),gamma_aux);
+			axiona->BckGnd()->SetGamma(gamma_aux);
+			LogMsg(VERB_NORMAL,"[prep] ReSet damping to gam = %f (was %f)",gamma_aux,axiona->BckGnd()->ICData().pregammo);
 		}
 
 }
-- 
2.43.0


From ecc8c4b216e92d04e008bf5f6fc022273978c798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:29 +0000
Subject: [PATCH 78/82] fix: cloud-in-cell interpolation took wrong neighbours
 at the end of a row

---
 lib/gadget/gadget_output.cpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/lib/gadget/gadget_output.cpp b/lib/gadget/gadget_output.cpp
index b543b7e..6cd60e0 100644
--- a/lib/gadget/gadget_output.cpp
+++ b/lib/gadget/gadget_output.cpp
@@ -234,17 +234,10 @@ void CIC_interp(Scalar *axion, float * grad3, float * mass, size_t idx, float x_
 	xYz = O[2]; //idxPy
 	xyZ = idx + S; //idxPz
 
-	if (X[1] != totlX - 1) XYz = Xyz + totlX;     // (1,1,0)
-	else                   XYz = xYz + 1;         // (1,1,0)
-
-	if (X[0] != totlX - 1) XyZ = xyZ + 1;         // (1,0,1)
-	else                   XyZ = xyZ + totlX;     // (1,0,1)
-
-	if (X[1] != totlX - 1) xYZ = xyZ + totlX;     // (0,1,1)
-	else                   xYZ = xYz + S;         // (0,1,1)
-
-	if (X[1] != totlX - 1) XYZ = Xyz + totlX + S; // (1,1,1)
-	else                   XYZ = xYz + 1 + S;     // (1,1,1)
+	XYz = Xyz + xYz - xyz;                        // (1,1,0), both neighbours may wrap around
+	XyZ = Xyz + S;                                // (1,0,1)
+	xYZ = xYz + S;                                // (0,1,1)
+	XYZ = XYz + S;                                // (1,1,1)
 
 	if (!mass_flag)
 	{	
-- 
2.43.0


From 23b22af51f096e0021dbaf572dad0a5e2fc2f20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:51 +0000
Subject: [PATCH 79/82] fix: the velocities of a gadget snapshot were put
 together far beyond the end of v

---
 lib/gadget/gadget_output.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/gadget/gadget_output.cpp b/lib/gadget/gadget_output.cpp
index 6cd60e0..abbf023 100644
--- a/lib/gadget/gadget_output.cpp
+++ b/lib/gadget/gadget_output.cpp
@@ -4,6 +4,7 @@
 #include <complex>
 #include <hdf5.h>
 #include <random>
+#include <vector>
 #include <fftw3-mpi.h>
 
 #include "scalar/scalarField.h"
@@ -609,6 +610,7 @@ void	createGadget_Void (Scalar *axion, Scalar *vaxion, size_t realN, size_t nPar
        Writes in slabs to corresponding hdf5 datasets
     */
     LogOut("\n[gadgetme] Creating particle coordinates and velocities ... ");
+    std::vector<float> vSlice(slab*3); // velocities of one slab, v itself has no room for them
     size_t lPos = 0;
     for (hsize_t zDim = 0; zDim < Nslabs; zDim++)
     {
@@ -633,7 +635,7 @@ void	createGadget_Void (Scalar *axion, Scalar *vaxion, size_t realN, size_t nPar
 	    if (dataSize == 4) 
 	    {	
 	        float *axOut = static_cast<float*>(static_cast<void*>(static_cast<char *> (axion->m2Cpu())+dataSize*(slab*(Lz*2+1))));
-		float  *vOut = static_cast<float*>(static_cast<void*>(static_cast<char *> (axion->vBackGhost())+dataSize*(slab*(Lz*2+1))));
+		float  *vOut = vSlice.data();
                 float  *mOut = static_cast<float*>(static_cast<void*>(static_cast<char *> (axion->m2Cpu())+ (slab*(Lz+1))*dataSize));
 
                 for (hssize_t i=0; i<nPrti; i++)
@@ -746,7 +748,7 @@ void	createGadget_Void (Scalar *axion, Scalar *vaxion, size_t realN, size_t nPar
 	if ((rErr < 0)) { LogError ("Error writing position dataset"); prof.stop(); exit(0); }
 	
 	H5Sselect_hyperslab(vSpc2, H5S_SELECT_SET, vOffset, stride, vSlab, nullptr);
-	auto vErr = H5Dwrite (vSt2_id, dataType, memSpace, vSpc2, plist_id, static_cast<char *> (axion->vBackGhost())+(slab*(Lz*2+1)*dataSize));
+	auto vErr = H5Dwrite (vSt2_id, dataType, memSpace, vSpc2, plist_id, vSlice.data());
 	if ((vErr < 0)) { LogError ("Error writing velocity dataset"); prof.stop(); exit(0); }
 	
         H5Sselect_hyperslab(mSpce, H5S_SELECT_SET, &offset, NULL, &slab, NULL);
-- 
2.43.0


From 29a5ff462cb0154649b73e8d1ac4e93923ffcc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:51 +0000
Subject: [PATCH 80/82] fix: displaced gadget particles of the last slice had
 masses from beyond the density

---
 lib/gadget/gadget_output.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/gadget/gadget_output.cpp b/lib/gadget/gadget_output.cpp
index abbf023..d648b81 100644
--- a/lib/gadget/gadget_output.cpp
+++ b/lib/gadget/gadget_output.cpp
@@ -603,6 +603,12 @@ void	createGadget_Void (Scalar *axion, Scalar *vaxion, size_t realN, size_t nPar
     for (size_t idx = 0; idx<rOff; idx++)
         mData[idx] *= avMass;
 
+    /* Displaced particles of the last slice also need the first one of the next rank */
+    if (disp_flag && dataSize == 4)
+    {
+        axion->sendGeneral(COMM_SDRV, slab, MPI_FLOAT, mData, mData + slab*realDepth, nullptr, nullptr);
+        axion->sendGeneral(COMM_WAIT, slab, MPI_FLOAT, mData, mData + slab*realDepth, nullptr, nullptr);
+    }
 
     /*  
        Main funciton
-- 
2.43.0


From 887db621d1e714ee66233b2f5039e1852e7e987d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:59 +0000
Subject: [PATCH 81/82] fix: measurements of the evolution before the start
 used uninitialised parameters

---
 lib/gen/prepropa.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/gen/prepropa.cpp b/lib/gen/prepropa.cpp
index d887e0e..589c574 100644
--- a/lib/gen/prepropa.cpp
+++ b/lib/gen/prepropa.cpp
@@ -24,7 +24,7 @@ void	prepropa  (Scalar *axiona)
 	//- number of plaquetes pierced by strings
 	lm.str.strDen = 0 ;
 	//- Info to measurement
-	MeasInfo ninfa;
+	MeasInfo ninfa = deninfa;
 	//- information needs to be passed onto measurement files
 	ninfa.sliceprint = 0;
 	ninfa.idxprint = 0 ;
@@ -140,7 +140,7 @@ void	prepropa2  (Scalar *axiona)
 	//- number of plaquetes pierced by strings
 	lm.str.strDen = 0 ;
 	//- Info to measurement
-	MeasInfo ninfa;
+	MeasInfo ninfa = deninfa;
 	//- information needs to be passed onto measurement files
 	ninfa.sliceprint = 0;
 	ninfa.idxprint = 0 ;
@@ -251,7 +251,7 @@ void	relaxrho  (Scalar *axiona)
 {
 	MeasData lm;
 	lm.str.strDen = 0 ;
-	MeasInfo ninfa;
+	MeasInfo ninfa = deninfa;
 	ninfa.sliceprint = 0;
 	ninfa.idxprint = 0 ;
 	ninfa.index = 0;
-- 
2.43.0


From eea0737b91cd7b8df465c3764c51bd2342d83011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:43 +0000
Subject: [PATCH 82/82] fix: threads merging tabulated angles with strings
 overwrote velocities other threads had yet to read

---
 lib/gen/genConf.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/lib/gen/genConf.cpp b/lib/gen/genConf.cpp
index 9cc9bff..c12ad46 100755
--- a/lib/gen/genConf.cpp
+++ b/lib/gen/genConf.cpp
@@ -1060,12 +1060,12 @@ void	ConfGenerator::confspax(Cosmos *myCosmos, Scalar *axionField)
 		double xit = (249.48 + 38.8431*logit + 1086.06*logit*logit)/(21775.3 + 3665.11*logit)  ;
 		if (ic.siter == 1)
 			xit *= ic.kcr;
+		/* keeps ctheta in the free half of v, putxi may use m2 */
+		size_t	bytes = ss*dl;
+		memcpy	   (vs+bytes, ms, bytes);
 		if (xit > 0.0)
 		{
 			LogMsg(VERB_NORMAL,"[GEN] Creating string on top of SPAX! \n");
-			/* moves ctheta to m2*/
-			memcpy	   (m2, ms, axionField->DataSize()*axionField->Size());
-			float *lerdo = static_cast<float*>(axionField->m2Cpu());
 			putxi(xit,ic.kMax);
 			normaliseField(axionField, FIELD_M);
 		}
@@ -1074,7 +1074,7 @@ void	ConfGenerator::confspax(Cosmos *myCosmos, Scalar *axionField)
 
 		we have :
 			strings in mStart, phi_s
-			extra waves psi = theta*R in m2Cpu
+			extra waves psi = theta*R in the second half of vCpu
 			extra waves psi' = theta'*R+theta R' in vCpu
 		we need :
 			conformal scalar Phi = phi_s * exp(i theta) * R, theta = psi/R IN MSTART
@@ -1086,6 +1086,9 @@ void	ConfGenerator::confspax(Cosmos *myCosmos, Scalar *axionField)
 		phi' = (rho'  + rho i theta')exp(I theta)
 				 > (rho'  + rho i theta'+extra)exp(I (theta+extra))
 */
+		/* velocities and ctheta are read from m2, because the threads write v */
+		memcpy	   (m2, vs, 2*bytes);
+
 		size_t vol = axionField->Size();
 
 
@@ -1095,8 +1098,8 @@ void	ConfGenerator::confspax(Cosmos *myCosmos, Scalar *axionField)
 				float Rp   = myCosmos->Rp(*axionField->zV());
 				complex<float> *co_m = static_cast<complex<float>*>(axionField->mStart());
 				complex<float> *co_v = static_cast<complex<float>*>(axionField->vCpu());
-				float *f_m  = static_cast<float*>(axionField->m2Cpu());
-				float *f_v  = static_cast<float*>(axionField->vCpu());
+				float *f_v  = static_cast<float*>(axionField->m2Cpu());
+				float *f_m  = f_v + vol;
 				#pragma omp parallel for default(shared) schedule(static)
 				for (size_t pidx = 0; pidx < vol; pidx++){
 					size_t idx = vol-pidx-1;
@@ -1112,8 +1115,8 @@ void	ConfGenerator::confspax(Cosmos *myCosmos, Scalar *axionField)
 				double Rp   = myCosmos->Rp(*axionField->zV());
 				complex<double> *co_m = static_cast<complex<double>*>(axionField->mStart());
 				complex<double> *co_v = static_cast<complex<double>*>(axionField->vCpu());
-				double *f_m  = static_cast<double*>(axionField->m2Cpu());
-				double *f_v  = static_cast<double*>(axionField->vCpu());
+				double *f_v  = static_cast<double*>(axionField->m2Cpu());
+				double *f_m  = f_v + vol;
 				#pragma omp parallel for default(shared) schedule(static)
 				for (size_t pidx = 0; pidx < vol; pidx++){
 					size_t idx = vol-pidx-1;
-- 
2.43.0

