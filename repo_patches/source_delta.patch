From 99be5307405a157cfefa65654879fe7365622da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:19 +0000
Subject: [PATCH 01/39] fix: use the Gregorian leap year rule in the standard
 calendar

---
 src/base/TimeObj.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/base/TimeObj.cpp b/src/base/TimeObj.cpp
index 064720d..c614a70 100644
--- a/src/base/TimeObj.cpp
+++ b/src/base/TimeObj.cpp
@@ -21,6 +21,16 @@
 
 ///////////////////////////////////////////////////////////////////////////////
 
+///	<summary>
+///		Determine if the given year is a leap year in the Gregorian calendar.
+///	</summary>
+static bool IsStandardLeapYear(int iYear) {
+	return ((iYear % 4) == 0) &&
+		(((iYear % 100) != 0) || ((iYear % 400) == 0));
+}
+
+///////////////////////////////////////////////////////////////////////////////
+
 bool Time::operator==(const Time & time) const {
 	if ((m_eCalendarType != time.m_eCalendarType) ||
 	    (m_eTimeType     != time.m_eTimeType)     ||
@@ -135,7 +145,7 @@ void Time::VerifyTime() {
 			= {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
 
 		if (m_eCalendarType == CalendarStandard) {
-			if (((m_iYear % 4) == 0) && ((m_iYear % 1000) != 0)) {
+			if (IsStandardLeapYear(m_iYear)) {
 				nDaysPerMonth[1] = 29;
 			}
 		}
@@ -174,7 +184,7 @@ void Time::NormalizeTime() {
 			= {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
 
 		if (m_eCalendarType == CalendarStandard) {
-			if (((m_iYear % 4) == 0) && ((m_iYear % 1000) != 0)) {
+			if (IsStandardLeapYear(m_iYear)) {
 				nDaysPerMonth[1] = 29;
 			}
 		}
@@ -225,7 +235,7 @@ void Time::NormalizeTime() {
 
 				// Adjust number of days per month
 				if (m_eCalendarType == CalendarStandard) {
-					if (((m_iYear % 4) == 0) && ((m_iYear % 1000) != 0)) {
+					if (IsStandardLeapYear(m_iYear)) {
 						nDaysPerMonth[1] = 29;
 					} else {
 						nDaysPerMonth[1] = 28;
@@ -245,7 +255,7 @@ void Time::NormalizeTime() {
 
 				// Adjust number of days per month
 				if (m_eCalendarType == CalendarStandard) {
-					if (((m_iYear % 4) == 0) && ((m_iYear % 1000) != 0)) {
+					if (IsStandardLeapYear(m_iYear)) {
 						nDaysPerMonth[1] = 29;
 					} else {
 						nDaysPerMonth[1] = 28;
-- 
2.43.0


From 567ccf5ddf729f83a6be475c064e1ce52f09f4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:30 +0000
Subject: [PATCH 02/39] fix: carry negative multiples of a second, day or year
 exactly in NormalizeTime

---
 src/base/TimeObj.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/base/TimeObj.cpp b/src/base/TimeObj.cpp
index c614a70..d4abab0 100644
--- a/src/base/TimeObj.cpp
+++ b/src/base/TimeObj.cpp
@@ -195,7 +195,7 @@ void Time::NormalizeTime() {
 			nAddedSeconds = m_iMicroSecond / 1000000;
 
 		} else if (m_iMicroSecond < 0) {
-			nAddedSeconds = - (1000000 - m_iSecond) / 1000000;
+			nAddedSeconds = - (999999 - m_iMicroSecond) / 1000000;
 		}
 		m_iMicroSecond -= nAddedSeconds * 1000000;
 		m_iSecond += nAddedSeconds;
@@ -206,7 +206,7 @@ void Time::NormalizeTime() {
 			nAddedDays = m_iSecond / 86400;
 
 		} else if (m_iSecond < 0) {
-			nAddedDays = - (86400 - m_iSecond) / 86400;
+			nAddedDays = - (86399 - m_iSecond) / 86400;
 		}
 
 		m_iSecond -= nAddedDays * 86400;
@@ -217,7 +217,7 @@ void Time::NormalizeTime() {
 		if (m_iMonth >= 12) {
 			nAddedYears = m_iMonth / 12;
 		} else if (m_iMonth < 0) {
-			nAddedYears = - (12 - m_iMonth) / 12;
+			nAddedYears = - (11 - m_iMonth) / 12;
 		}
 		m_iMonth -= nAddedYears * 12;
 		m_iYear += nAddedYears;
-- 
2.43.0


From 7dc42c7f991913c3479eeebc87f33928fd27f8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:30 +0000
Subject: [PATCH 03/39] fix: take the length of February from the normalized
 year

---
 src/base/TimeObj.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/base/TimeObj.cpp b/src/base/TimeObj.cpp
index d4abab0..edf34c8 100644
--- a/src/base/TimeObj.cpp
+++ b/src/base/TimeObj.cpp
@@ -183,12 +183,6 @@ void Time::NormalizeTime() {
 		int nDaysPerMonth[]
 			= {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
 
-		if (m_eCalendarType == CalendarStandard) {
-			if (IsStandardLeapYear(m_iYear)) {
-				nDaysPerMonth[1] = 29;
-			}
-		}
-
 		// Add seconds
 		int nAddedSeconds = 0;
 		if (m_iMicroSecond >= 1000000) {
@@ -226,6 +220,13 @@ void Time::NormalizeTime() {
 			_EXCEPTIONT("Logic error");
 		}
 
+		// Adjust number of days per month
+		if (m_eCalendarType == CalendarStandard) {
+			if (IsStandardLeapYear(m_iYear)) {
+				nDaysPerMonth[1] = 29;
+			}
+		}
+
 		// Subtract months
 		while (m_iDay < 0) {
 			m_iMonth--;
-- 
2.43.0


From 12ec779cfceea76a573106c0dce3bd92f3082217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:43 +0000
Subject: [PATCH 04/39] fix: keep the days of a duration instead of turning
 them into months

---
 src/base/TimeObj.cpp | 6 ++++++
 src/base/TimeObj.h   | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/base/TimeObj.cpp b/src/base/TimeObj.cpp
index edf34c8..efe7a0e 100644
--- a/src/base/TimeObj.cpp
+++ b/src/base/TimeObj.cpp
@@ -220,6 +220,12 @@ void Time::NormalizeTime() {
 			_EXCEPTIONT("Logic error");
 		}
 
+		// A number of days does not correspond to any number of months
+		// until it is added to a date
+		if (m_eTimeType == TypeDelta) {
+			return;
+		}
+
 		// Adjust number of days per month
 		if (m_eCalendarType == CalendarStandard) {
 			if (IsStandardLeapYear(m_iYear)) {
diff --git a/src/base/TimeObj.h b/src/base/TimeObj.h
index d040041..dee5d78 100644
--- a/src/base/TimeObj.h
+++ b/src/base/TimeObj.h
@@ -357,6 +357,8 @@ public:
 	///	</summary>
 	inline void SetTimeType(TimeType eTimeType) {
 		m_eTimeType = eTimeType;
+
+		NormalizeTime();
 	}
 
 public:
-- 
2.43.0


From 55b59df30e86a438c2f00a9a2d0310f92661ebb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:57 +0000
Subject: [PATCH 05/39] fix: read the fractional seconds of a time string as a
 decimal fraction

---
 src/base/TimeObj.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/base/TimeObj.cpp b/src/base/TimeObj.cpp
index efe7a0e..b242222 100644
--- a/src/base/TimeObj.cpp
+++ b/src/base/TimeObj.cpp
@@ -17,6 +17,7 @@
 #include "TimeObj.h"
 #include "Exception.h"
 
+#include <cstring>
 #include <iostream>
 
 ///////////////////////////////////////////////////////////////////////////////
@@ -820,6 +821,19 @@ void Time::FromFormattedString(
 	}
 	if (szMicroSecond != NULL) {
 		m_iMicroSecond = atoi(szMicroSecond);
+
+		// In Time format this is a decimal fraction of a second
+		if (state == FormatState_Time) {
+			size_t nDigits = strlen(szMicroSecond);
+			if (nDigits > 6) {
+				_EXCEPTION1("Malformed Time string (%s): "
+					"At most six decimal digits allowed",
+					strFormattedTime.c_str());
+			}
+			for (; nDigits < 6; nDigits++) {
+				m_iMicroSecond *= 10;
+			}
+		}
 	}
 
 	// Normalize
-- 
2.43.0


From 264fa63f55e08bd5948a2a801cc3cf270fbacc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:18 +0000
Subject: [PATCH 06/39] fix: use the Gauss points for nine point Gauss
 quadrature

---
 src/base/GaussQuadrature.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/base/GaussQuadrature.cpp b/src/base/GaussQuadrature.cpp
index ab51d6e..522e329 100644
--- a/src/base/GaussQuadrature.cpp
+++ b/src/base/GaussQuadrature.cpp
@@ -139,15 +139,15 @@ void GaussQuadrature::GetPoints(
 
 	// Degree 9
 	} else if (nCount == 9) {
-		dG[0] = -1.0;
-		dG[1] = -0.899757995411460;
-		dG[2] = -0.677186279510738;
-		dG[3] = -0.363117463826178;
+		dG[0] = -0.9681602395076261;
+		dG[1] = -0.8360311073266358;
+		dG[2] = -0.6133714327005904;
+		dG[3] = -0.3242534234038089;
 		dG[4] =  0.0;
-		dG[5] = +0.363117463826178;
-		dG[6] = +0.677186279510738;
-		dG[7] = +0.899757995411460;
-		dG[8] = +1.0;
+		dG[5] = +0.3242534234038089;
+		dG[6] = +0.6133714327005904;
+		dG[7] = +0.8360311073266358;
+		dG[8] = +0.9681602395076261;
 
 		dW[0] = 0.0812743883615744;
 		dW[1] = 0.1806481606948574;
-- 
2.43.0


From 397c5637a646003408a0ae71f0a5df2627f17b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:54 +0000
Subject: [PATCH 07/39] fix: check the bandwidth of the matrix in DGBSV against
 its columns

---
 src/base/LinearAlgebra.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/LinearAlgebra.cpp b/src/base/LinearAlgebra.cpp
index d015a04..dfcbade 100644
--- a/src/base/LinearAlgebra.cpp
+++ b/src/base/LinearAlgebra.cpp
@@ -161,8 +161,8 @@ int LAPACK::DGBSV(
 	int nKU
 ) {
 	// Check dimensions
-	if (dA.GetRows() < 2 * nKL + nKU + 1) {
-		_EXCEPTIONT("Matrix A has insufficient rows for DGBSV");
+	if (dA.GetColumns() < 2 * nKL + nKU + 1) {
+		_EXCEPTIONT("Matrix A has insufficient columns for DGBSV");
 	}
 	if (dBX.GetRows() < dA.GetRows()) {
 		_EXCEPTIONT("Matrix A / B dimension mismatch in DGBSV");
-- 
2.43.0


From 727c7a2eb36ca42ce87714a7f84a7840ff192342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:54 +0000
Subject: [PATCH 08/39] fix: compute the SVD pseudoinverse of matrices with
 more rows than columns

---
 src/base/LinearAlgebra.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/base/LinearAlgebra.cpp b/src/base/LinearAlgebra.cpp
index dfcbade..beef40a 100644
--- a/src/base/LinearAlgebra.cpp
+++ b/src/base/LinearAlgebra.cpp
@@ -645,9 +645,9 @@ void LAPACK::GeneralizedInverseSVD(
 	if (dA.GetColumns() > dA.GetRows()) {
 
 		// Apply inverted singular values to U
-		for (int i = 0; i < dA.GetColumns(); i++) {
-		for (int j = 0; j < dA.GetRows(); j++) {
-			dU[i][j] *= dS[j];
+		for (int i = 0; i < dA.GetRows(); i++) {
+		for (int j = 0; j < dA.GetColumns(); j++) {
+			dU[i][j] *= dS[i];
 		}
 		}
 
@@ -655,7 +655,7 @@ void LAPACK::GeneralizedInverseSVD(
 		for (int i = 0; i < dA.GetRows(); i++) {
 		for (int j = 0; j < dA.GetColumns(); j++) {
 		for (int k = 0; k < dA.GetRows(); k++) {
-			dOut[i][j] += dVT[i][k] * dU[j][k];
+			dOut[i][j] += dVT[i][k] * dU[k][j];
 		}
 		}
 		}
-- 
2.43.0


From 9f3783305c5ad66e83115b9a180ba8772ce18b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:43 +0000
Subject: [PATCH 09/39] fix: pass the banded storage width to DGBTRF and DGBTRS

---
 src/base/LinearAlgebra.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/base/LinearAlgebra.cpp b/src/base/LinearAlgebra.cpp
index beef40a..052eee8 100644
--- a/src/base/LinearAlgebra.cpp
+++ b/src/base/LinearAlgebra.cpp
@@ -306,9 +306,9 @@ int LAPACK::DGBTRF(
 	int iKU
 ) {
 	int m = dA.GetRows();
-	int n = dA.GetColumns();
+	int n = dA.GetRows();
 
-	int lda = m;
+	int lda = dA.GetColumns();
 
 	int nInfo;
 
@@ -365,10 +365,9 @@ int LAPACK::DGBTRS(
 	int iKL,
 	int iKU
 ) {
-	int m = dA.GetRows();
-	int n = dA.GetColumns();
+	int n = dA.GetRows();
 
-	int lda = m;
+	int lda = dA.GetColumns();
 	int ldb = dB.GetRows();
 	int nRHS = 1;
 
-- 
2.43.0


From f96cb2474d8b6bd0cc4a74bf1a3536f8efa1b16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:38 +0000
Subject: [PATCH 10/39] fix: keep the data of a DataArray2D assigned to itself

---
 src/base/DataArray2D.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/base/DataArray2D.h b/src/base/DataArray2D.h
index 9bff11b..a60c866 100644
--- a/src/base/DataArray2D.h
+++ b/src/base/DataArray2D.h
@@ -301,8 +301,6 @@ public:
 				Allocate(da.m_sSize[0], da.m_sSize[1]);
 			}
 
-			Deallocate();
-			Allocate(da.m_sSize[0], da.m_sSize[1]);
 			m_eDataType = da.m_eDataType;
 			m_eDataLocation = da.m_eDataLocation;
 		}
-- 
2.43.0


From be1495645ec1638ca5d4c304ea8bc20e03274013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:11 +0000
Subject: [PATCH 11/39] fix: accept any letter case of --vstretch on Cartesian
 grids

---
 src/atm/TempestInitialize.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atm/TempestInitialize.h b/src/atm/TempestInitialize.h
index 256769e..40f785b 100644
--- a/src/atm/TempestInitialize.h
+++ b/src/atm/TempestInitialize.h
@@ -666,7 +666,7 @@ void _TempestSetupCartesianModel(
 		pGrid->InitializeDataLocal();
 
 		// Set the vertical stretching function
-		STLStringHelper::ToLower(vars.strHorizontalDynamics);
+		STLStringHelper::ToLower(vars.strVerticalStretch);
 		if (vars.strVerticalStretch == "uniform") {
 
 		} else if (vars.strVerticalStretch == "cubic") {
-- 
2.43.0


From 388f2a529b9829c6d74e64b44966241eb91428f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:11 +0000
Subject: [PATCH 12/39] fix: read every line of a preferences file, whatever
 its length or end

---
 src/base/Preferences.cpp | 79 ++++++++--------------------------------
 1 file changed, 16 insertions(+), 63 deletions(-)

diff --git a/src/base/Preferences.cpp b/src/base/Preferences.cpp
index b6ea7ef..7d26e02 100644
--- a/src/base/Preferences.cpp
+++ b/src/base/Preferences.cpp
@@ -40,90 +40,43 @@ void Preferences::ParsePreferences(
 		_EXCEPTION1("Error opening file %s", szFilename);
 	}
 
-	char szBuffer[256];
+	std::string strLine;
 
 	// Read the file line by line
-	for (;;) {
-		file.getline(szBuffer, 256);
-		if (file.eof()) {
-			break;
-		}
+	while (std::getline(file, strLine)) {
 
 		// Ignore comment characters
-		if (strlen(szBuffer) == 0) {
+		if (strLine.length() == 0) {
 			continue;
 		}
-		if (szBuffer[0] == '#') {
+		if (strLine[0] == '#') {
 			continue;
 		}
 
 		// Identify the location of the equal sign
-		char* szName = szBuffer;
-		char* szEqual = strchr(szBuffer, '=');
-		if (NULL == szEqual) {
+		size_t sEqual = strLine.find('=');
+		if (sEqual == std::string::npos) {
 			_EXCEPTIONT("Malformed preferences file.");
 		}
 
-		(*szEqual) = static_cast<char>(NULL);
-		szEqual++;
-
-		// Buffer counter
-		size_t i;
+		std::string strName = strLine.substr(0, sEqual);
+		std::string strValue = strLine.substr(sEqual + 1);
 
 		// Remove whitespace from the name string
-		size_t nLength = strlen(szName);
-		for (i = nLength-1;; i--) {
-			if (szName[i] == ' ') {
-				szName[i] = static_cast<char>(NULL);
-			} else {
-				break;
-			}
-
-			// No name - throw exception
-			if (i == 0) {
-				_EXCEPTION1("Invalid name in Preference: %s\n", szName[i]);
-			}
-		}
+		strName.erase(0, strName.find_first_not_of(' '));
+		strName.erase(strName.find_last_not_of(' ') + 1);
 
-		for (i = 0; i < nLength; i++) {
-			if (szName[i] == ' ') {
-				szName[i] = static_cast<char>(NULL);
-				szName++;
-				i--;
-			} else {
-				break;
-			}
+		// No name - throw exception
+		if (strName.length() == 0) {
+			_EXCEPTION1("Invalid name in Preference: %s\n", strLine.c_str());
 		}
 
 		// Remove whitespace from the value string
-		nLength = strlen(szEqual);
-		for (i = nLength-1;; i--) {
-			if (szEqual[i] == ' ') {
-				szEqual[i] = static_cast<char>(NULL);
-			} else {
-				break;
-			}
-
-			// No value, set to NULL
-			if (i == 0) {
-				break;
-			}
-		}
-
-		for (i = 0; i < nLength; i++) {
-			if (szEqual[i] == ' ') {
-				szEqual[i] = static_cast<char>(NULL);
-				szEqual++;
-				i--;
-			} else {
-				break;
-			}
-		}
+		strValue.erase(0, strValue.find_first_not_of(' '));
+		strValue.erase(strValue.find_last_not_of(' ') + 1);
 
 		// Insert this string into the map
-		m_mapPreferences.insert(
-			PairType(std::string(szName), std::string(szEqual))
-		);
+		m_mapPreferences.insert(PairType(strName, strValue));
 	}
 }
 
-- 
2.43.0


From e8675b17038f08f18d0e655d95e6e041d1793ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:15 +0000
Subject: [PATCH 13/39] fix: transform vectors at the poles consistently with
 their longitude

---
 src/atm/CubedSphereTrans.cpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/atm/CubedSphereTrans.cpp b/src/atm/CubedSphereTrans.cpp
index 90fa095..4732cf5 100644
--- a/src/atm/CubedSphereTrans.cpp
+++ b/src/atm/CubedSphereTrans.cpp
@@ -231,7 +231,9 @@ void CubedSphereTrans::RLLFromXYP(
 
 		// North polar panel
 		case 4:
-			if (fabs(dX) > DBL_EPSILON) {
+			if ((fabs(dX) < 1.0e-13) && (fabs(dY) < 1.0e-13)) {
+				lon = 0.0;
+			} else if (fabs(dX) > DBL_EPSILON) {
 				lon = atan2(dX, -dY);
 			} else if (dY <= 0.0) {
 				lon = 0.0;
@@ -243,7 +245,9 @@ void CubedSphereTrans::RLLFromXYP(
 
 		// South polar panel
 		case 5:
-			if (fabs(dX) > DBL_EPSILON) {
+			if ((fabs(dX) < 1.0e-13) && (fabs(dY) < 1.0e-13)) {
+				lon = M_PI;
+			} else if (fabs(dX) > DBL_EPSILON) {
 				lon = atan2(dX, dY);
 			} else if (dY > 0.0) {
 				lon = 0.0;
@@ -399,10 +403,11 @@ void CubedSphereTrans::VecTransABPFromRLL(
 	if ((nP > 3) && (fabs(dX) < 1.0e-13) && (fabs(dY) < 1.0e-13)) {
 		if (nP == 4) {
 			dUalpha = dUlon;
+			dUbeta = dUlat;
 		} else {
 			dUalpha = - dUlon;
+			dUbeta = - dUlat;
 		}
-		dUbeta = dUlat;
 		return;
 	}
 
@@ -482,6 +487,17 @@ void CubedSphereTrans::VecTransRLLFromABP(
 
 	double lat;
 
+	if ((nP > 3) && (fabs(dX) < 1.0e-13) && (fabs(dY) < 1.0e-13)) {
+		if (nP == 4) {
+			dUlon = dUalpha;
+			dUlat = dUbeta;
+		} else {
+			dUlon = - dUalpha;
+			dUlat = - dUbeta;
+		}
+		return;
+	}
+
 	switch (nP) {
 		// Equatorial panels
 		case 0:
@@ -563,10 +579,11 @@ void CubedSphereTrans::CoVecTransABPFromRLL(
 	if ((nP > 3) && (fabs(dX) < 1.0e-13) && (fabs(dY) < 1.0e-13)) {
 		if (nP == 4) {
 			dUalpha = dUlon;
+			dUbeta = dUlat;
 		} else {
 			dUalpha = - dUlon;
+			dUbeta = - dUlat;
 		}
-		dUbeta = dUlat;
 		return;
 	}
 
@@ -655,10 +672,11 @@ void CubedSphereTrans::CoVecTransRLLFromABP(
 	if ((nP > 3) && (fabs(dX) < 1.0e-13) && (fabs(dY) < 1.0e-13)) {
 		if (nP == 4) {
 			dUlon = dUalpha;
+			dUlat = dUbeta;
 		} else {
 			dUlon = - dUalpha;
+			dUlat = - dUbeta;
 		}
-		dUlat = dUbeta;
 		return;
 	}
 
-- 
2.43.0


From a32b4b0c047752e93dff675a787e21be7f906e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:47 +0000
Subject: [PATCH 14/39] fix: distribute only the patches of the layout, so that
 any process count runs on the sphere

---
 src/atm/Grid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atm/Grid.cpp b/src/atm/Grid.cpp
index b21f3ee..cbc4dde 100644
--- a/src/atm/Grid.cpp
+++ b/src/atm/Grid.cpp
@@ -1046,8 +1046,8 @@ void Grid::DistributePatches() {
 	MPI_Comm_rank(MPI_COMM_WORLD, &nRank);
 
 	// Loop over all patches and initialize data
-	m_vecPatchProcessor.resize(m_aPatchBoxes.GetRows());
-	for (int n = 0; n < m_aPatchBoxes.GetRows(); n++) {
+	m_vecPatchProcessor.resize(GetPatchCount());
+	for (int n = 0; n < GetPatchCount(); n++) {
 		int iPatchProcessor = n % nSize;
 		m_vecPatchProcessor[n] = iPatchProcessor;
 
-- 
2.43.0


From 9e13e272d18548bd7acf09e4bc9859af166a7860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:39 +0000
Subject: [PATCH 15/39] fix: give points on the far boundary of a Cartesian
 domain to the last patch

---
 src/atm/GridCartesianGLL.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/atm/GridCartesianGLL.cpp b/src/atm/GridCartesianGLL.cpp
index 6d7cdbf..48507b9 100644
--- a/src/atm/GridCartesianGLL.cpp
+++ b/src/atm/GridCartesianGLL.cpp
@@ -323,6 +323,14 @@ void GridCartesianGLL::ConvertReferenceToPatchCoord(
 			double dBInteriorEnd =
 				m_dGDim[2] + iBElementInteriorEnd * dElementDeltaB;
 
+			// The last patch ends exactly at the end of the domain
+			if (iAElementInteriorEnd == GetABaseResolution()) {
+				dAInteriorEnd = m_dGDim[1];
+			}
+			if (iBElementInteriorEnd == GetBBaseResolution()) {
+				dBInteriorEnd = m_dGDim[3];
+			}
+
 			if ((dAlpha[i] >= dAInteriorBegin) &&
 				(dAlpha[i] <= dAInteriorEnd) &&
 				(dBeta[i] >= dBInteriorBegin) &&
-- 
2.43.0


From be122c403e2a8345f5b2334869304b60082339da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:38 +0000
Subject: [PATCH 16/39] fix: impose the conditions of nonperiodic boundaries of
 a Cartesian domain

The tests for patches on the boundary compared indices that include the halo
and never matched, so averaging mixed boundary values with stale halo values
and let flow through the walls.
---
 src/atm/GridCartesianGLL.cpp      |  18 ++
 src/atm/GridPatchCartesianGLL.cpp | 305 ++++++++++++++++++++++--------
 src/atm/GridPatchCartesianGLL.h   |  15 ++
 3 files changed, 254 insertions(+), 84 deletions(-)

diff --git a/src/atm/GridCartesianGLL.cpp b/src/atm/GridCartesianGLL.cpp
index 48507b9..9c4df34 100644
--- a/src/atm/GridCartesianGLL.cpp
+++ b/src/atm/GridCartesianGLL.cpp
@@ -556,6 +556,24 @@ void GridCartesianGLL::ApplyDSS(
 			_EXCEPTIONT("Invalid DataType");
 		}
 
+		// There is no neighbor across a nonperiodic boundary: extend the
+		// boundary values into the halo so that averaging retains them
+		if (eDataType == DataType_State) {
+			pPatch->ExtendToBoundaryHalo(
+				pPatch->GetDataState(iDataUpdate, DataLocation_Node));
+			pPatch->ExtendToBoundaryHalo(
+				pPatch->GetDataState(iDataUpdate, DataLocation_REdge));
+		} else if (eDataType == DataType_Tracers) {
+			pPatch->ExtendToBoundaryHalo(
+				pPatch->GetDataTracers(iDataUpdate));
+		} else if (eDataType == DataType_Vorticity) {
+			pPatch->ExtendToBoundaryHalo(pPatch->GetDataVorticity());
+		} else if (eDataType == DataType_Divergence) {
+			pPatch->ExtendToBoundaryHalo(pPatch->GetDataDivergence());
+		} else if (eDataType == DataType_TopographyDeriv) {
+			pPatch->ExtendToBoundaryHalo(pPatch->GetTopographyDeriv());
+		}
+
 		// Apply BC only to state DSS
 		if (eDataType == DataType_State) {
 			pPatch->ApplyBoundaryConditions(iDataUpdate, DataType_State, n);
diff --git a/src/atm/GridPatchCartesianGLL.cpp b/src/atm/GridPatchCartesianGLL.cpp
index 3ad09cb..cb76333 100644
--- a/src/atm/GridPatchCartesianGLL.cpp
+++ b/src/atm/GridPatchCartesianGLL.cpp
@@ -780,6 +780,91 @@ void GridPatchCartesianGLL::EvaluateTestCase_Perturbation(
 //std::cout << "\n" << "End of EvaluateTestCase_Perturbation" << "\n";
 }
 
+///////////////////////////////////////////////////////////////////////////////
+
+void GridPatchCartesianGLL::ExtendToBoundaryHalo(
+	DataArray3D<double> & data
+) const {
+	const int nA = m_box.GetATotalWidth();
+	const int nB = m_box.GetBTotalWidth();
+	const int nK = static_cast<int>(data.GetSize(2));
+
+	const int nGlobalAEndIndex =
+		m_nHorizontalOrder * m_grid.GetABaseResolution();
+	const int nGlobalBEndIndex =
+		m_nHorizontalOrder * m_grid.GetBBaseResolution();
+
+	// Right edge
+	if ((m_grid.GetBoundaryCondition(Direction_Right) !=
+			Grid::BoundaryCondition_Periodic) &&
+		(m_box.GetAGlobalInteriorEnd() == nGlobalAEndIndex)
+	) {
+		for (int i = m_box.GetAInteriorEnd(); i < nA; i++) {
+		for (int j = 0; j < nB; j++) {
+		for (int k = 0; k < nK; k++) {
+			data[i][j][k] = data[m_box.GetAInteriorEnd()-1][j][k];
+		}
+		}
+		}
+	}
+
+	// Left edge
+	if ((m_grid.GetBoundaryCondition(Direction_Left) !=
+			Grid::BoundaryCondition_Periodic) &&
+		(m_box.GetAGlobalInteriorBegin() == 0)
+	) {
+		for (int i = 0; i < m_box.GetAInteriorBegin(); i++) {
+		for (int j = 0; j < nB; j++) {
+		for (int k = 0; k < nK; k++) {
+			data[i][j][k] = data[m_box.GetAInteriorBegin()][j][k];
+		}
+		}
+		}
+	}
+
+	// Top edge
+	if ((m_grid.GetBoundaryCondition(Direction_Top) !=
+			Grid::BoundaryCondition_Periodic) &&
+		(m_box.GetBGlobalInteriorEnd() == nGlobalBEndIndex)
+	) {
+		for (int i = 0; i < nA; i++) {
+		for (int j = m_box.GetBInteriorEnd(); j < nB; j++) {
+		for (int k = 0; k < nK; k++) {
+			data[i][j][k] = data[i][m_box.GetBInteriorEnd()-1][k];
+		}
+		}
+		}
+	}
+
+	// Bottom edge
+	if ((m_grid.GetBoundaryCondition(Direction_Bottom) !=
+			Grid::BoundaryCondition_Periodic) &&
+		(m_box.GetBGlobalInteriorBegin() == 0)
+	) {
+		for (int i = 0; i < nA; i++) {
+		for (int j = 0; j < m_box.GetBInteriorBegin(); j++) {
+		for (int k = 0; k < nK; k++) {
+			data[i][j][k] = data[i][m_box.GetBInteriorBegin()][k];
+		}
+		}
+		}
+	}
+}
+
+///////////////////////////////////////////////////////////////////////////////
+
+void GridPatchCartesianGLL::ExtendToBoundaryHalo(
+	DataArray4D<double> & data
+) const {
+	for (int c = 0; c < static_cast<int>(data.GetSize(0)); c++) {
+		DataArray3D<double> dataComponent;
+		dataComponent.SetSize(
+			data.GetSize(1), data.GetSize(2), data.GetSize(3));
+		dataComponent.AttachToData(&(data[c][0][0][0]));
+		ExtendToBoundaryHalo(dataComponent);
+	}
+}
+
 ///////////////////////////////////////////////////////////////////////////////
 #pragma message "TO DO test non-periodic BC on global alpha and beta boundaries"
 void GridPatchCartesianGLL::ApplyBoundaryConditions(
@@ -794,6 +879,10 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 	const int WIx = 3;
 	const int RIx = 4;
 
+	// Shallow water equations have no vertical velocity
+	const bool fHasW =
+		(m_grid.GetModel().GetEquationSet().GetComponents() > WIx);
+
 	double dUa_hat = 0.0;
 	double dUb_hat = 0.0;
 	double dUx_hat = 0.0;
@@ -822,33 +911,37 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 		Grid::BoundaryCondition eBoundaryRight =
 			m_grid.GetBoundaryCondition(Direction_Right);
 		if ((eBoundaryRight != Grid::BoundaryCondition_Periodic) && 
-			(m_box.GetAGlobalEnd() == nGlobalAEndIndex)) {
+			(m_box.GetAGlobalInteriorEnd() == nGlobalAEndIndex)) {
 			int i = m_box.GetATotalWidth() - 1;
 
 			for (int k = 0; k < m_grid.GetRElements(); k++) {
 			for (int j = 0; j < m_box.GetBTotalWidth(); j++) {
-				if (eBoundaryRight != Grid::BoundaryCondition_NoSlip) {
+				if (eBoundaryRight == Grid::BoundaryCondition_NoSlip) {
 					m_datavecStateNode[iDataIndex][UIx][i][j][k] =
 						- m_datavecStateNode[iDataIndex][UIx][i-1][j][k];
 
 					m_datavecStateNode[iDataIndex][VIx][i][j][k] =
 						- m_datavecStateNode[iDataIndex][VIx][i-1][j][k];
 
-					m_datavecStateNode[iDataIndex][WIx][i][j][k] =
+					if (fHasW) m_datavecStateNode[iDataIndex][WIx][i][j][k] =
 						- m_datavecStateNode[iDataIndex][WIx][i-1][j][k];
-				} else if (eBoundaryRight != Grid::BoundaryCondition_NoFlux) {
+				} else if (eBoundaryRight == Grid::BoundaryCondition_NoFlux) {
 					// DSS the local boundary u_beta and u_xi
 					dUb_hat = 0.5 * 
 						(m_datavecStateNode[iDataIndex][VIx][i][j][k] +
 						m_datavecStateNode[iDataIndex][VIx][i-1][j][k]);
-					dUx_hat = 0.5 * 
+					if (fHasW) dUx_hat = 0.5 * 
 						(m_datavecStateNode[iDataIndex][WIx][i][j][k] +
 						m_datavecStateNode[iDataIndex][WIx][i-1][j][k]);
 					//dUx_hat *= m_dataDerivRNode[k][i-1][j][2];
-					// Get the local alpha contravariant metric components
-					dGaa = m_dataContraMetricA[i-1][j][k][0];
-					dGab = m_dataContraMetricA[i-1][j][k][1];
-					dGax = m_dataContraMetricA[i-1][j][k][2];
+					// Get the local alpha contravariant metric components (not
+					// available in the halo, where nodes repeat those of the edge)
+					const int jMetric =
+						std::min(std::max(j, m_box.GetBInteriorBegin()),
+							m_box.GetBInteriorEnd()-1);
+					dGaa = m_dataContraMetricA[i-1][jMetric][k][0];
+					dGab = m_dataContraMetricA[i-1][jMetric][k][1];
+					dGax = m_dataContraMetricA[i-1][jMetric][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUa_hat = -1.0 / dGaa * (dGab * dUb_hat + dGax * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -866,33 +959,37 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 		Grid::BoundaryCondition eBoundaryTop =
 			m_grid.GetBoundaryCondition(Direction_Top);
 		if ((eBoundaryTop != Grid::BoundaryCondition_Periodic) && 
-			(m_box.GetBGlobalEnd() == nGlobalBEndIndex)) {
+			(m_box.GetBGlobalInteriorEnd() == nGlobalBEndIndex)) {
 			int j = m_box.GetBTotalWidth() - 1;
 
 			for (int k = 0; k < m_grid.GetRElements(); k++) {
 			for (int i = 0; i < m_box.GetATotalWidth(); i++) {
-				if (eBoundaryTop != Grid::BoundaryCondition_NoSlip) {
+				if (eBoundaryTop == Grid::BoundaryCondition_NoSlip) {
 					m_datavecStateNode[iDataIndex][UIx][i][j][k] =
 						- m_datavecStateNode[iDataIndex][UIx][i][j-1][k];
 
 					m_datavecStateNode[iDataIndex][VIx][i][j][k] =
 						- m_datavecStateNode[iDataIndex][VIx][i][j-1][k];
 
-					m_datavecStateNode[iDataIndex][WIx][i][j][k] =
+					if (fHasW) m_datavecStateNode[iDataIndex][WIx][i][j][k] =
 						- m_datavecStateNode[iDataIndex][WIx][i][j-1][k];
-				} else if (eBoundaryTop != Grid::BoundaryCondition_NoFlux) {
+				} else if (eBoundaryTop == Grid::BoundaryCondition_NoFlux) {
 					// DSS the local boundary u_alpha and u_xi
 					dUa_hat = 0.5 * 
 						(m_datavecStateNode[iDataIndex][UIx][i][j][k] +
 						m_datavecStateNode[iDataIndex][UIx][i][j-1][k]);
-					dUx_hat = 0.5 * 
+					if (fHasW) dUx_hat = 0.5 * 
 						(m_datavecStateNode[iDataIndex][WIx][i][j][k] +
 						m_datavecStateNode[iDataIndex][WIx][i][j-1][k]);
 					//dUx_hat *= m_dataDerivRNode[i][j-1][k][2];
-					// Get the local beta contravariant metric components
-					dGba = m_dataContraMetricB[i][j-1][k][0];
-					dGbb = m_dataContraMetricB[i][j-1][k][1];
-					dGbx = m_dataContraMetricB[i][j-1][k][2];
+					// Get the local beta contravariant metric components (not
+					// available in the halo, where nodes repeat those of the edge)
+					const int iMetric =
+						std::min(std::max(i, m_box.GetAInteriorBegin()),
+							m_box.GetAInteriorEnd()-1);
+					dGba = m_dataContraMetricB[iMetric][j-1][k][0];
+					dGbb = m_dataContraMetricB[iMetric][j-1][k][1];
+					dGbx = m_dataContraMetricB[iMetric][j-1][k][2];
 					//std::cout << dGbb << "\n";
 					// Compute the convariant boundary velocity u^hat
 					dUb_hat = -1.0 / dGbb * (dGba * dUa_hat + dGbx * dUx_hat);
@@ -911,7 +1008,7 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 		Grid::BoundaryCondition eBoundaryLeft =
 			m_grid.GetBoundaryCondition(Direction_Left);
 		if ((eBoundaryLeft != Grid::BoundaryCondition_Periodic) && 
-			(m_box.GetAGlobalBegin() == nGlobalABeginIndex)) {
+			(m_box.GetAGlobalInteriorBegin() == nGlobalABeginIndex)) {
 			int i = 0;
 
 			for (int k = 0; k < m_grid.GetRElements(); k++) {
@@ -923,21 +1020,25 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 					m_datavecStateNode[iDataIndex][VIx][i][j][k] =
 						- m_datavecStateNode[iDataIndex][VIx][i+1][j][k];
 
-					m_datavecStateNode[iDataIndex][WIx][i][j][k] =
+					if (fHasW) m_datavecStateNode[iDataIndex][WIx][i][j][k] =
 						- m_datavecStateNode[iDataIndex][WIx][i+1][j][k];
 				} else if (eBoundaryLeft == Grid::BoundaryCondition_NoFlux) {
 					// DSS the local boundary u_beta and u_xi
 					dUb_hat = 0.5 * 
 						(m_datavecStateNode[iDataIndex][VIx][i][j][k] +
 						m_datavecStateNode[iDataIndex][VIx][i+1][j][k]);
-					dUx_hat = 0.5 * 
+					if (fHasW) dUx_hat = 0.5 * 
 						(m_datavecStateNode[iDataIndex][WIx][i][j][k] +
 						m_datavecStateNode[iDataIndex][WIx][i+1][j][k]);
 					//dUx_hat *= m_dataDerivRNode[i+1][j][k][2];
-					// Get the local alpha contravariant metric components
-					dGaa = m_dataContraMetricA[i+1][j][k][0];
-					dGab = m_dataContraMetricA[i+1][j][k][1];
-					dGax = m_dataContraMetricA[i+1][j][k][2];
+					// Get the local alpha contravariant metric components (not
+					// available in the halo, where nodes repeat those of the edge)
+					const int jMetric =
+						std::min(std::max(j, m_box.GetBInteriorBegin()),
+							m_box.GetBInteriorEnd()-1);
+					dGaa = m_dataContraMetricA[i+1][jMetric][k][0];
+					dGab = m_dataContraMetricA[i+1][jMetric][k][1];
+					dGax = m_dataContraMetricA[i+1][jMetric][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUa_hat = -1.0 / dGaa * (dGab * dUb_hat + dGax * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -955,7 +1056,7 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 		Grid::BoundaryCondition eBoundaryBottom =
 			m_grid.GetBoundaryCondition(Direction_Bottom);
 		if ((eBoundaryBottom != Grid::BoundaryCondition_Periodic) && 
-			(m_box.GetBGlobalBegin() == nGlobalBBeginIndex)) {
+			(m_box.GetBGlobalInteriorBegin() == nGlobalBBeginIndex)) {
 			int j = 0;
 
 			for (int k = 0; k < m_grid.GetRElements(); k++) {
@@ -967,21 +1068,25 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 					m_datavecStateNode[iDataIndex][VIx][i][j][k] =
 						- m_datavecStateNode[iDataIndex][VIx][i][j+1][k];
 
-					m_datavecStateNode[iDataIndex][WIx][i][j][k] =
+					if (fHasW) m_datavecStateNode[iDataIndex][WIx][i][j][k] =
 						- m_datavecStateNode[iDataIndex][WIx][i][j+1][k];
 				} else if (eBoundaryBottom == Grid::BoundaryCondition_NoFlux) {
 					// DSS the local boundary u_alpha and u_xi
 					dUa_hat = 0.5 * 
 						(m_datavecStateNode[iDataIndex][UIx][i][j][k] +
 						m_datavecStateNode[iDataIndex][UIx][i][j+1][k]);
-					dUx_hat = 0.5 * 
+					if (fHasW) dUx_hat = 0.5 * 
 						(m_datavecStateNode[iDataIndex][WIx][i][j][k] +
 						m_datavecStateNode[iDataIndex][WIx][i][j+1][k]);
 					//dUx_hat *= m_dataDerivRNode[i][j+1][k][2];
-					// Get the local beta contravariant metric components
-					dGba = m_dataContraMetricB[i][j+1][k][0];
-					dGbb = m_dataContraMetricB[i][j+1][k][1];
-					dGbx = m_dataContraMetricB[i][j+1][k][2];
+					// Get the local beta contravariant metric components (not
+					// available in the halo, where nodes repeat those of the edge)
+					const int iMetric =
+						std::min(std::max(i, m_box.GetAInteriorBegin()),
+							m_box.GetAInteriorEnd()-1);
+					dGba = m_dataContraMetricB[iMetric][j+1][k][0];
+					dGbb = m_dataContraMetricB[iMetric][j+1][k][1];
+					dGbx = m_dataContraMetricB[iMetric][j+1][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUb_hat = -1.0 / dGbb * (dGba * dUa_hat + dGbx * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -1001,7 +1106,7 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 		Grid::BoundaryCondition eBoundaryRight =
 			m_grid.GetBoundaryCondition(Direction_Right);
 		if ((eBoundaryRight != Grid::BoundaryCondition_Periodic) && 
-			(m_box.GetAGlobalEnd() == nGlobalAEndIndex)) {
+			(m_box.GetAGlobalInteriorEnd() == nGlobalAEndIndex)) {
 			int i = m_box.GetATotalWidth() - 1;
 			
 			for (int j = 0; j < m_box.GetBTotalWidth(); j++) {
@@ -1013,21 +1118,25 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 					m_datavecStateNode[iDataIndex][VIx][i][j][k] =
 						- m_datavecStateNode[iDataIndex][VIx][i-1][j][k];
 
-					m_datavecStateNode[iDataIndex][WIx][i][j][k] =
+					if (fHasW) m_datavecStateNode[iDataIndex][WIx][i][j][k] =
 						- m_datavecStateNode[iDataIndex][WIx][i-1][j][k];
 				} else if (eBoundaryRight == Grid::BoundaryCondition_NoFlux) {
 					// DSS the local boundary u_beta and u_xi
 					dUb_hat = 0.5 * 
 						(m_datavecStateNode[iDataIndex][VIx][i][j][k] +
 						m_datavecStateNode[iDataIndex][VIx][i-1][j][k]);
-					dUx_hat = 0.5 * 
+					if (fHasW) dUx_hat = 0.5 * 
 						(m_datavecStateNode[iDataIndex][WIx][i][j][k] +
 						m_datavecStateNode[iDataIndex][WIx][i-1][j][k]);
 					//dUx_hat *= m_dataDerivRNode[i-1][j][k][2];
-					// Get the local alpha contravariant metric components
-					dGaa = m_dataContraMetricA[i-1][j][k][0];
-					dGab = m_dataContraMetricA[i-1][j][k][1];
-					dGax = m_dataContraMetricA[i-1][j][k][2];
+					// Get the local alpha contravariant metric components (not
+					// available in the halo, where nodes repeat those of the edge)
+					const int jMetric =
+						std::min(std::max(j, m_box.GetBInteriorBegin()),
+							m_box.GetBInteriorEnd()-1);
+					dGaa = m_dataContraMetricA[i-1][jMetric][k][0];
+					dGab = m_dataContraMetricA[i-1][jMetric][k][1];
+					dGax = m_dataContraMetricA[i-1][jMetric][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUa_hat = -1.0 / dGaa * (dGab * dUb_hat + dGax * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -1047,21 +1156,25 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 					m_datavecStateREdge[iDataIndex][VIx][i][j][k] =
 						- m_datavecStateREdge[iDataIndex][VIx][i-1][j][k];
 
-					m_datavecStateREdge[iDataIndex][WIx][i][j][k] =
+					if (fHasW) m_datavecStateREdge[iDataIndex][WIx][i][j][k] =
 						- m_datavecStateREdge[iDataIndex][WIx][i-1][j][k];
 				} else if (eBoundaryRight == Grid::BoundaryCondition_NoFlux) {
 					// DSS the local boundary u_beta and u_xi
 					dUb_hat = 0.5 * 
 						(m_datavecStateREdge[iDataIndex][VIx][i][j][k] +
 						m_datavecStateREdge[iDataIndex][VIx][i-1][j][k]);
-					dUx_hat = 0.5 * 
+					if (fHasW) dUx_hat = 0.5 * 
 						(m_datavecStateREdge[iDataIndex][WIx][i][j][k] +
 						m_datavecStateREdge[iDataIndex][WIx][i-1][j][k]);
 					//dUx_hat *= m_dataDerivRREdge[i-1][j][k][2];
-					// Get the local alpha contravariant metric components
-					dGaa = m_dataContraMetricAREdge[i-1][j][k][0];
-					dGab = m_dataContraMetricAREdge[i-1][j][k][1];
-					dGax = m_dataContraMetricAREdge[i-1][j][k][2];
+					// Get the local alpha contravariant metric components (not
+					// available in the halo, where nodes repeat those of the edge)
+					const int jMetric =
+						std::min(std::max(j, m_box.GetBInteriorBegin()),
+							m_box.GetBInteriorEnd()-1);
+					dGaa = m_dataContraMetricAREdge[i-1][jMetric][k][0];
+					dGab = m_dataContraMetricAREdge[i-1][jMetric][k][1];
+					dGax = m_dataContraMetricAREdge[i-1][jMetric][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUa_hat = -1.0 / dGaa * (dGab * dUb_hat + dGax * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -1079,7 +1192,7 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 		Grid::BoundaryCondition eBoundaryTop =
 			m_grid.GetBoundaryCondition(Direction_Top);
 		if ((eBoundaryTop != Grid::BoundaryCondition_Periodic) && 
-			(m_box.GetBGlobalEnd() == nGlobalBEndIndex)) {
+			(m_box.GetBGlobalInteriorEnd() == nGlobalBEndIndex)) {
 			int j = m_box.GetBTotalWidth() - 1;
 
 			for (int i = 0; i < m_box.GetATotalWidth(); i++) {
@@ -1091,21 +1204,25 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 					m_datavecStateNode[iDataIndex][VIx][i][j][k] =
 						- m_datavecStateNode[iDataIndex][VIx][i][j-1][k];
 
-					m_datavecStateNode[iDataIndex][WIx][i][j][k] =
+					if (fHasW) m_datavecStateNode[iDataIndex][WIx][i][j][k] =
 						- m_datavecStateNode[iDataIndex][WIx][i][j-1][k];
 				} else if (eBoundaryTop == Grid::BoundaryCondition_NoFlux) {
 					// DSS the local boundary u_alpha and u_xi
 					dUa_hat = 0.5 * 
 						(m_datavecStateNode[iDataIndex][UIx][i][j][k] +
 						m_datavecStateNode[iDataIndex][UIx][i][j-1][k]);
-					dUx_hat = 0.5 * 
+					if (fHasW) dUx_hat = 0.5 * 
 						(m_datavecStateNode[iDataIndex][WIx][i][j][k] +
 						m_datavecStateNode[iDataIndex][WIx][i][j-1][k]);
 					//dUx_hat *= m_dataDerivRNode[i][j-1][k][2];
-					// Get the local beta contravariant metric components
-					dGba = m_dataContraMetricB[i][j-1][k][0];
-					dGbb = m_dataContraMetricB[i][j-1][k][1];
-					dGbx = m_dataContraMetricB[i][j-1][k][2];
+					// Get the local beta contravariant metric components (not
+					// available in the halo, where nodes repeat those of the edge)
+					const int iMetric =
+						std::min(std::max(i, m_box.GetAInteriorBegin()),
+							m_box.GetAInteriorEnd()-1);
+					dGba = m_dataContraMetricB[iMetric][j-1][k][0];
+					dGbb = m_dataContraMetricB[iMetric][j-1][k][1];
+					dGbx = m_dataContraMetricB[iMetric][j-1][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUb_hat = -1.0 / dGbb * (dGba * dUa_hat + dGbx * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -1125,21 +1242,25 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 					m_datavecStateREdge[iDataIndex][VIx][i][j][k] =
 						- m_datavecStateREdge[iDataIndex][VIx][i][j-1][k];
 
-					m_datavecStateREdge[iDataIndex][WIx][i][j][k] =
+					if (fHasW) m_datavecStateREdge[iDataIndex][WIx][i][j][k] =
 						- m_datavecStateREdge[iDataIndex][WIx][i][j-1][k];
 				} else if (eBoundaryTop == Grid::BoundaryCondition_NoFlux) {
 					// DSS the local boundary u_alpha and u_xi
 					dUa_hat = 0.5 * 
 						(m_datavecStateREdge[iDataIndex][UIx][i][j][k] +
 						m_datavecStateREdge[iDataIndex][UIx][i][j-1][k]);
-					dUx_hat = 0.5 * 
+					if (fHasW) dUx_hat = 0.5 * 
 						(m_datavecStateREdge[iDataIndex][WIx][i][j][k] +
 						m_datavecStateREdge[iDataIndex][WIx][i][j-1][k]);
 					//dUx_hat *= m_dataDerivRREdge[i][j-1][k][2];
-					// Get the local beta contravariant metric components
-					dGba = m_dataContraMetricBREdge[i][j-1][k][0];
-					dGbb = m_dataContraMetricBREdge[i][j-1][k][1];
-					dGbx = m_dataContraMetricBREdge[i][j-1][k][2];
+					// Get the local beta contravariant metric components (not
+					// available in the halo, where nodes repeat those of the edge)
+					const int iMetric =
+						std::min(std::max(i, m_box.GetAInteriorBegin()),
+							m_box.GetAInteriorEnd()-1);
+					dGba = m_dataContraMetricBREdge[iMetric][j-1][k][0];
+					dGbb = m_dataContraMetricBREdge[iMetric][j-1][k][1];
+					dGbx = m_dataContraMetricBREdge[iMetric][j-1][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUb_hat = -1.0 / dGbb * (dGba * dUa_hat + dGbx * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -1157,7 +1278,7 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 		Grid::BoundaryCondition eBoundaryLeft =
 			m_grid.GetBoundaryCondition(Direction_Left);
 		if ((eBoundaryLeft != Grid::BoundaryCondition_Periodic) && 
-			(m_box.GetAGlobalBegin() == nGlobalABeginIndex)) {
+			(m_box.GetAGlobalInteriorBegin() == nGlobalABeginIndex)) {
 			int i = 0;
 			
 			for (int j = 0; j < m_box.GetBTotalWidth(); j++) {
@@ -1169,21 +1290,25 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 					m_datavecStateNode[iDataIndex][VIx][i][j][k] =
 						- m_datavecStateNode[iDataIndex][VIx][i+1][j][k];
 
-					m_datavecStateNode[iDataIndex][WIx][i][j][k] =
+					if (fHasW) m_datavecStateNode[iDataIndex][WIx][i][j][k] =
 						- m_datavecStateNode[iDataIndex][WIx][i+1][j][k];
 				} else if (eBoundaryLeft == Grid::BoundaryCondition_NoFlux) {
 					// DSS the local boundary u_beta and u_xi
 					dUb_hat = 0.5 * 
 						(m_datavecStateNode[iDataIndex][VIx][i][j][k] +
 						m_datavecStateNode[iDataIndex][VIx][i+1][j][k]);
-					dUx_hat = 0.5 * 
+					if (fHasW) dUx_hat = 0.5 * 
 						(m_datavecStateNode[iDataIndex][WIx][i][j][k] +
 						m_datavecStateNode[iDataIndex][WIx][i+1][j][k]);
 					//dUx_hat *= m_dataDerivRNode[i+1][j][k][2];
-					// Get the local alpha contravariant metric components
-					dGaa = m_dataContraMetricA[i+1][j][k][0];
-					dGab = m_dataContraMetricA[i+1][j][k][1];
-					dGax = m_dataContraMetricA[i+1][j][k][2];
+					// Get the local alpha contravariant metric components (not
+					// available in the halo, where nodes repeat those of the edge)
+					const int jMetric =
+						std::min(std::max(j, m_box.GetBInteriorBegin()),
+							m_box.GetBInteriorEnd()-1);
+					dGaa = m_dataContraMetricA[i+1][jMetric][k][0];
+					dGab = m_dataContraMetricA[i+1][jMetric][k][1];
+					dGax = m_dataContraMetricA[i+1][jMetric][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUa_hat = -1.0 / dGaa * (dGab * dUb_hat + dGax * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -1203,21 +1328,25 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 					m_datavecStateREdge[iDataIndex][VIx][i][j][k] =
 						- m_datavecStateREdge[iDataIndex][VIx][i+1][j][k];
 
-					m_datavecStateREdge[iDataIndex][WIx][i][j][k] =
+					if (fHasW) m_datavecStateREdge[iDataIndex][WIx][i][j][k] =
 						- m_datavecStateREdge[iDataIndex][WIx][i+1][j][k];
 				} else if (eBoundaryLeft == Grid::BoundaryCondition_NoFlux) {
 					// DSS the local boundary u_beta and u_xi
 					dUb_hat = 0.5 * 
 						(m_datavecStateREdge[iDataIndex][VIx][i][j][k] +
 						m_datavecStateREdge[iDataIndex][VIx][i+1][j][k]);
-					dUx_hat = 0.5 * 
+					if (fHasW) dUx_hat = 0.5 * 
 						(m_datavecStateREdge[iDataIndex][WIx][i][j][k] +
 						m_datavecStateREdge[iDataIndex][WIx][i+1][j][k]);
 					//dUx_hat *= m_dataDerivRREdge[i+1][j][k][2];
-					// Get the local alpha contravariant metric components
-					dGaa = m_dataContraMetricAREdge[i+1][j][k][0];
-					dGab = m_dataContraMetricAREdge[i+1][j][k][1];
-					dGax = m_dataContraMetricAREdge[i+1][j][k][2];
+					// Get the local alpha contravariant metric components (not
+					// available in the halo, where nodes repeat those of the edge)
+					const int jMetric =
+						std::min(std::max(j, m_box.GetBInteriorBegin()),
+							m_box.GetBInteriorEnd()-1);
+					dGaa = m_dataContraMetricAREdge[i+1][jMetric][k][0];
+					dGab = m_dataContraMetricAREdge[i+1][jMetric][k][1];
+					dGax = m_dataContraMetricAREdge[i+1][jMetric][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUa_hat = -1.0 / dGaa * (dGab * dUb_hat + dGax * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -1235,7 +1364,7 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 		Grid::BoundaryCondition eBoundaryBottom =
 			m_grid.GetBoundaryCondition(Direction_Bottom);
 		if ((eBoundaryBottom != Grid::BoundaryCondition_Periodic) && 
-			(m_box.GetBGlobalBegin() == nGlobalBBeginIndex)) {
+			(m_box.GetBGlobalInteriorBegin() == nGlobalBBeginIndex)) {
 			int j = 0;
 			
 			for (int i = 0; i < m_box.GetATotalWidth(); i++) {
@@ -1247,21 +1376,25 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 					m_datavecStateNode[iDataIndex][VIx][i][j][k] =
 						- m_datavecStateNode[iDataIndex][VIx][i][j+1][k];
 
-					m_datavecStateNode[iDataIndex][WIx][i][j][k] =
+					if (fHasW) m_datavecStateNode[iDataIndex][WIx][i][j][k] =
 						- m_datavecStateNode[iDataIndex][WIx][i][j+1][k];
 				} else if (eBoundaryBottom == Grid::BoundaryCondition_NoFlux) {
 					// DSS the local boundary u_alpha and u_xi
 					dUa_hat = 0.5 * 
 						(m_datavecStateNode[iDataIndex][UIx][i][j][k] +
 						m_datavecStateNode[iDataIndex][UIx][i][j+1][k]);
-					dUx_hat = 0.5 * 
+					if (fHasW) dUx_hat = 0.5 * 
 						(m_datavecStateNode[iDataIndex][WIx][i][j][k] +
 						m_datavecStateNode[iDataIndex][WIx][i][j+1][k]);
 					//dUx_hat *= m_dataDerivRNode[i][j+1][k][2];
-					// Get the local beta contravariant metric components
-					dGba = m_dataContraMetricB[i][j+1][k][0];
-					dGbb = m_dataContraMetricB[i][j+1][k][1];
-					dGbx = m_dataContraMetricB[i][j+1][k][2];
+					// Get the local beta contravariant metric components (not
+					// available in the halo, where nodes repeat those of the edge)
+					const int iMetric =
+						std::min(std::max(i, m_box.GetAInteriorBegin()),
+							m_box.GetAInteriorEnd()-1);
+					dGba = m_dataContraMetricB[iMetric][j+1][k][0];
+					dGbb = m_dataContraMetricB[iMetric][j+1][k][1];
+					dGbx = m_dataContraMetricB[iMetric][j+1][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUb_hat = -1.0 / dGbb * (dGba * dUa_hat + dGbx * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
@@ -1281,21 +1414,25 @@ void GridPatchCartesianGLL::ApplyBoundaryConditions(
 					m_datavecStateREdge[iDataIndex][VIx][i][j][k] =
 						- m_datavecStateREdge[iDataIndex][VIx][i][j+1][k];
 
-					m_datavecStateREdge[iDataIndex][WIx][i][j][k] =
+					if (fHasW) m_datavecStateREdge[iDataIndex][WIx][i][j][k] =
 						- m_datavecStateREdge[iDataIndex][WIx][i][j+1][k];
 				} else if (eBoundaryBottom == Grid::BoundaryCondition_NoFlux) {
 					// DSS the local boundary u_alpha and u_xi
 					dUa_hat = 0.5 * 
 						(m_datavecStateREdge[iDataIndex][UIx][i][j][k] +
 						m_datavecStateREdge[iDataIndex][UIx][i][j+1][k]);
-					dUx_hat = 0.5 * 
+					if (fHasW) dUx_hat = 0.5 * 
 						(m_datavecStateREdge[iDataIndex][WIx][i][j][k] +
 						m_datavecStateREdge[iDataIndex][WIx][i][j+1][k]);
 					//dUx_hat *= m_dataDerivRREdge[i][j+1][k][2];
-					// Get the local beta contravariant metric components
-					dGba = m_dataContraMetricBREdge[i][j+1][k][0];
-					dGbb = m_dataContraMetricBREdge[i][j+1][k][1];
-					dGbx = m_dataContraMetricBREdge[i][j+1][k][2];
+					// Get the local beta contravariant metric components (not
+					// available in the halo, where nodes repeat those of the edge)
+					const int iMetric =
+						std::min(std::max(i, m_box.GetAInteriorBegin()),
+							m_box.GetAInteriorEnd()-1);
+					dGba = m_dataContraMetricBREdge[iMetric][j+1][k][0];
+					dGbb = m_dataContraMetricBREdge[iMetric][j+1][k][1];
+					dGbx = m_dataContraMetricBREdge[iMetric][j+1][k][2];
 					// Compute the convariant boundary velocity u^hat
 					dUb_hat = -1.0 / dGbb * (dGba * dUa_hat + dGbx * dUx_hat);
 					// Compute the pre-DSS halo velocity that imposes no-flux
diff --git a/src/atm/GridPatchCartesianGLL.h b/src/atm/GridPatchCartesianGLL.h
index 7f71389..be0fa58 100644
--- a/src/atm/GridPatchCartesianGLL.h
+++ b/src/atm/GridPatchCartesianGLL.h
@@ -96,6 +96,21 @@ public:
 		int iDataInstance = 0
 	);
 
+public:
+	///	<summary>
+	///		Extend data on nonperiodic boundaries into the adjacent halo.
+	///	</summary>
+	void ExtendToBoundaryHalo(
+		DataArray3D<double> & data
+	) const;
+
+	///	<summary>
+	///		Extend data on nonperiodic boundaries into the adjacent halo.
+	///	</summary>
+	void ExtendToBoundaryHalo(
+		DataArray4D<double> & data
+	) const;
+
 public:
 	///	<summary>
 	///		Apply boundary conditions to this patch.
-- 
2.43.0


From f6b4d1d1e2b6d15a96ea1558b3232dd5f9c5e270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:12 +0000
Subject: [PATCH 17/39] fix: carry tracers through the implicit stages of the
 ARS222, ARS443, ARK232, GARK2 and SSP3332 schemes

---
 src/atm/TimestepSchemeARK232.cpp  | 6 +++---
 src/atm/TimestepSchemeARS222.cpp  | 2 +-
 src/atm/TimestepSchemeARS443.cpp  | 6 +++---
 src/atm/TimestepSchemeGARK2.cpp   | 2 +-
 src/atm/TimestepSchemeSSP3332.cpp | 6 +++---
 5 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/atm/TimestepSchemeARK232.cpp b/src/atm/TimestepSchemeARK232.cpp
index 758f505..cade447 100644
--- a/src/atm/TimestepSchemeARK232.cpp
+++ b/src/atm/TimestepSchemeARK232.cpp
@@ -108,7 +108,7 @@ void TimestepSchemeARK232::Step(
 		pHorizontalDynamics, pVerticalDynamics, pGrid);
 /*
 	pGrid->CopyData(1, 2, DataType_State);
-	pGrid->CopyData(1, 2, DataType_State);
+	pGrid->CopyData(1, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicitTermsExplicitly(
 		1, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
@@ -116,7 +116,7 @@ void TimestepSchemeARK232::Step(
 */
 	// Compute u1 into index 3
 	pGrid->CopyData(2, 3, DataType_State);
-	pGrid->CopyData(2, 3, DataType_State);
+	pGrid->CopyData(2, 3, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		3, 3, time, m_dImpCf[0][1] * dDeltaT);
 	pGrid->PostProcessSubstage(3, DataType_State);
@@ -137,7 +137,7 @@ void TimestepSchemeARK232::Step(
 
 	// Compute u2 from uf2 (index 3) into index 4
 	pGrid->CopyData(4, 5, DataType_State);
-	pGrid->CopyData(4, 5, DataType_State);
+	pGrid->CopyData(4, 5, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		5, 5, time, m_dImpCf[1][2] * dDeltaT);
 	pGrid->PostProcessSubstage(5, DataType_State);
diff --git a/src/atm/TimestepSchemeARS222.cpp b/src/atm/TimestepSchemeARS222.cpp
index 3b2ae8b..39e4310 100644
--- a/src/atm/TimestepSchemeARS222.cpp
+++ b/src/atm/TimestepSchemeARS222.cpp
@@ -85,7 +85,7 @@ void TimestepSchemeARS222::Step(
 
 	// Compute u1 into index 2
 	pGrid->CopyData(1, 2, DataType_State);
-	pGrid->CopyData(1, 2, DataType_State);
+	pGrid->CopyData(1, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		2, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
diff --git a/src/atm/TimestepSchemeARS443.cpp b/src/atm/TimestepSchemeARS443.cpp
index d6ba3f0..38cf802 100644
--- a/src/atm/TimestepSchemeARS443.cpp
+++ b/src/atm/TimestepSchemeARS443.cpp
@@ -117,7 +117,7 @@ void TimestepSchemeARS443::Step(
 
 	// Compute u1 into index 2
 	pGrid->CopyData(1, 2, DataType_State);
-	pGrid->CopyData(1, 2, DataType_State);
+	pGrid->CopyData(1, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		2, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
@@ -138,7 +138,7 @@ void TimestepSchemeARS443::Step(
 
 	// Compute u2 from uf2 (index 3) into index 4
 	pGrid->CopyData(3, 4, DataType_State);
-	pGrid->CopyData(3, 4, DataType_State);
+	pGrid->CopyData(3, 4, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		4, 4, time, m_dImpCf[1][1] * dDeltaT);
 	pGrid->PostProcessSubstage(4, DataType_State);
@@ -159,7 +159,7 @@ void TimestepSchemeARS443::Step(
 
 	// Compute u3 from uf3 (index 3) into index 6
 	pGrid->CopyData(5, 6, DataType_State);
-	pGrid->CopyData(5, 6, DataType_State);
+	pGrid->CopyData(5, 6, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		6, 6, time, m_dImpCf[2][2] * dDeltaT);
 	pGrid->PostProcessSubstage(6, DataType_State);
diff --git a/src/atm/TimestepSchemeGARK2.cpp b/src/atm/TimestepSchemeGARK2.cpp
index fc9bad2..9422135 100644
--- a/src/atm/TimestepSchemeGARK2.cpp
+++ b/src/atm/TimestepSchemeGARK2.cpp
@@ -103,7 +103,7 @@ void TimestepSchemeGARK2::Step(
 
 	// Compute u1 into index 2
 	pGrid->CopyData(1, 2, DataType_State);
-	pGrid->CopyData(1, 2, DataType_State);
+	pGrid->CopyData(1, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		2, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
diff --git a/src/atm/TimestepSchemeSSP3332.cpp b/src/atm/TimestepSchemeSSP3332.cpp
index 3dd7faa..cd28930 100644
--- a/src/atm/TimestepSchemeSSP3332.cpp
+++ b/src/atm/TimestepSchemeSSP3332.cpp
@@ -108,7 +108,7 @@ void TimestepSchemeSSP3332::Step(
 	// STAGE 1
 	// Compute u1 into index 2
 	pGrid->CopyData(0, 2, DataType_State);
-	pGrid->CopyData(0, 2, DataType_State);
+	pGrid->CopyData(0, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		2, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
@@ -130,7 +130,7 @@ void TimestepSchemeSSP3332::Step(
 
 	// Compute u2 from uf2 (index 3) into index 4
 	pGrid->CopyData(3, 4, DataType_State);
-	pGrid->CopyData(3, 4, DataType_State);
+	pGrid->CopyData(3, 4, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		4, 4, time, m_dImpCf[1][1] * dDeltaT);
 	pGrid->PostProcessSubstage(4, DataType_State);
@@ -151,7 +151,7 @@ void TimestepSchemeSSP3332::Step(
 
 	// Compute u3 from uf3 (index 3) into index 6
 	pGrid->CopyData(5, 6, DataType_State);
-	pGrid->CopyData(5, 6, DataType_State);
+	pGrid->CopyData(5, 6, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		6, 6, time, m_dImpCf[2][2] * dDeltaT);
 	pGrid->PostProcessSubstage(6, DataType_State);
-- 
2.43.0


From 953cec4ba3d7d104a4f99bb3f8414d4c8a194f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:09 +0000
Subject: [PATCH 18/39] fix: ARK232 subcycled its first stage into the initial
 state and evaluated the implicit terms of stage 1 at the wrong state, which
 made it inconsistent

---
 src/atm/TimestepSchemeARK232.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/atm/TimestepSchemeARK232.cpp b/src/atm/TimestepSchemeARK232.cpp
index cade447..1e0ae6e 100644
--- a/src/atm/TimestepSchemeARK232.cpp
+++ b/src/atm/TimestepSchemeARK232.cpp
@@ -91,9 +91,6 @@ void TimestepSchemeARK232::Step(
 
 	// STAGE 1
 	// Compute uf1 into index 1
-	SubcycleStageExplicit(time, m_dExpCf[0][0], dDeltaT, 2, 0, 1, 
-		pHorizontalDynamics, pVerticalDynamics, pGrid);
-/*
 	pGrid->CopyData(0, 1, DataType_State);
 	pGrid->CopyData(0, 1, DataType_Tracers);
 	pHorizontalDynamics->StepExplicit(
@@ -102,18 +99,15 @@ void TimestepSchemeARK232::Step(
 		0, 1, time, m_dExpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(1, DataType_State);
 	pGrid->PostProcessSubstage(1, DataType_Tracers);
-*/
+
 	// Compute ug1 into index 2 (NO IMPLICIT SOLVE NEEDED HERE)
-	SubcycleStageImplicitExplicitly(time, m_dImpCf[0][0], dDeltaT, 1, 1, 2, 
-		pHorizontalDynamics, pVerticalDynamics, pGrid);
-/*
 	pGrid->CopyData(1, 2, DataType_State);
 	pGrid->CopyData(1, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicitTermsExplicitly(
-		1, 2, time, m_dImpCf[0][0] * dDeltaT);
+		0, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
 	pGrid->PostProcessSubstage(2, DataType_Tracers);
-*/
+
 	// Compute u1 into index 3
 	pGrid->CopyData(2, 3, DataType_State);
 	pGrid->CopyData(2, 3, DataType_Tracers);
-- 
2.43.0


From 6bc46d4e5f535695821bb61e3a6fff49feb8f034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 19/39] fix: second derivative in a column of elements of
 different heights (edge weights and interface fluxes assumed equal elements)

---
 src/atm/LinearColumnOperatorFEM.cpp | 48 +++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/src/atm/LinearColumnOperatorFEM.cpp b/src/atm/LinearColumnOperatorFEM.cpp
index 8454826..87d6e06 100644
--- a/src/atm/LinearColumnOperatorFEM.cpp
+++ b/src/atm/LinearColumnOperatorFEM.cpp
@@ -1133,7 +1133,21 @@ void LinearColumnDiffDiffFEM::Initialize(
 				dStandardNode,
 				dDiffCorrectionFn);
 
-			dDiffCorrectionFn[0] /= dElementDeltaXi;
+			// Scale by the mean width of the elements on either side of
+			// each edge, so that both see the same flux through the edge
+			double dDiffCorrectionL = dDiffCorrectionFn[0];
+			if (a > 0) {
+				dDiffCorrectionL /= 0.5 * (dElementDeltaXi
+					+ dREtaREdge[a * nVerticalOrder]
+					- dREtaREdge[(a-1) * nVerticalOrder]);
+			}
+
+			double dDiffCorrectionR = dDiffCorrectionFn[0];
+			if (a < nFiniteElements-1) {
+				dDiffCorrectionR /= 0.5 * (dElementDeltaXi
+					+ dREtaREdge[(a+2) * nVerticalOrder]
+					- dREtaREdge[(a+1) * nVerticalOrder]);
+			}
 
 			// Build local first derivative operator
 			DataArray2D<double> dDiffNodeToNode(
@@ -1249,9 +1263,9 @@ void LinearColumnDiffDiffFEM::Initialize(
 
 					for (int i = 0; i < nVerticalOrder; i++) {
 						m_dCoeff[ax+j][ax+i] -=
-							0.5 * dPhiR * dCoeffL[i] * dDiffCorrectionFn[0];
+							0.5 * dPhiR * dCoeffL[i] * dDiffCorrectionR;
 						m_dCoeff[ax+j][ax+nVerticalOrder+i] +=
-							0.5 * dPhiR * dCoeffR[i] * dDiffCorrectionFn[0];
+							0.5 * dPhiR * dCoeffR[i] * dDiffCorrectionR;
 					}
 				}
 
@@ -1272,9 +1286,9 @@ void LinearColumnDiffDiffFEM::Initialize(
 
 					for (int i = 0; i < nVerticalOrder; i++) {
 						m_dCoeff[ax+j][ax-nVerticalOrder+i] +=
-							0.5 * dPhiL * dCoeffL[i] * dDiffCorrectionFn[0];
+							0.5 * dPhiL * dCoeffL[i] * dDiffCorrectionL;
 						m_dCoeff[ax+j][ax+i] -=
-							0.5 * dPhiL * dCoeffR[i] * dDiffCorrectionFn[0];
+							0.5 * dPhiL * dCoeffR[i] * dDiffCorrectionL;
 					}
 				}
 			}
@@ -1335,11 +1349,19 @@ void LinearColumnDiffDiffFEM::Initialize(
 
 				double dWlocal = dW[j];
 
+				// Nodes on an edge carry the weight of both elements (the
+				// end weight of an element is proportional to its width)
 				if ((j == 0) && (a != 0)) {
-					dWlocal *= 2.0;
+					dWlocal *= (dREtaREdge[(a+1) * nVerticalOrder]
+						- dREtaREdge[(a-1) * nVerticalOrder])
+						/ (dREtaREdge[(a+1) * nVerticalOrder]
+						- dREtaREdge[a * nVerticalOrder]);
 				}
 				if ((j == nVerticalOrder) && (a != nFiniteElements-1)) {
-					dWlocal *= 2.0;
+					dWlocal *= (dREtaREdge[(a+2) * nVerticalOrder]
+						- dREtaREdge[a * nVerticalOrder])
+						/ (dREtaREdge[(a+1) * nVerticalOrder]
+						- dREtaREdge[a * nVerticalOrder]);
 				}
 
 				for (int i = 0; i <= nVerticalOrder; i++) {
@@ -1436,11 +1458,19 @@ void LinearColumnDiffDiffFEM::InitializeGLLNodes(
 
 			double dWlocal = dW[j];
 
+			// Nodes on an edge carry the weight of both elements (the
+			// end weight of an element is proportional to its width)
 			if ((j == 0) && (a != 0)) {
-				dWlocal *= 2.0;
+				dWlocal *= (dREtaNode[(a+1) * (nVerticalOrder-1)]
+					- dREtaNode[(a-1) * (nVerticalOrder-1)])
+					/ (dREtaNode[(a+1) * (nVerticalOrder-1)]
+					- dREtaNode[a * (nVerticalOrder-1)]);
 			}
 			if ((j == nVerticalOrder-1) && (a != nFiniteElements-1)) {
-				dWlocal *= 2.0;
+				dWlocal *= (dREtaNode[(a+2) * (nVerticalOrder-1)]
+					- dREtaNode[a * (nVerticalOrder-1)])
+					/ (dREtaNode[(a+1) * (nVerticalOrder-1)]
+					- dREtaNode[a * (nVerticalOrder-1)]);
 			}
 
 			for (int i = 0; i < nVerticalOrder; i++) {
-- 
2.43.0


From d83a0e0624b977eca464b24660eac56d6db236ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 20/39] fix: interpolation from the level of a column with a
 single level used values outside the column

---
 src/atm/LinearColumnOperatorFEM.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atm/LinearColumnOperatorFEM.cpp b/src/atm/LinearColumnOperatorFEM.cpp
index 87d6e06..641eb7c 100644
--- a/src/atm/LinearColumnOperatorFEM.cpp
+++ b/src/atm/LinearColumnOperatorFEM.cpp
@@ -119,7 +119,7 @@ void LinearColumnInterpFEM::Initialize(
 		} else {
 
 			// For nVerticalOrder = 1, override default O(dx) interpolant
-			if ((nVerticalOrder == 1) && (l == 0)) {
+			if ((nVerticalOrder == 1) && (nFiniteElementsIn > 1) && (l == 0)) {
 				PolynomialInterp::LagrangianPolynomialCoeffs(
 					nVerticalOrder + 1,
 					&(dREtaNode[a * nVerticalOrder]),
@@ -129,7 +129,7 @@ void LinearColumnInterpFEM::Initialize(
 				m_iBegin[l] =  a    * nVerticalOrder;
 				m_iEnd[l]   = (a+2) * nVerticalOrder;
 
-			} else if ((nVerticalOrder == 1) && (l == nRElementsOut-1)) {
+			} else if ((nVerticalOrder == 1) && (nFiniteElementsIn > 1) && (l == nRElementsOut-1)) {
 				PolynomialInterp::LagrangianPolynomialCoeffs(
 					nVerticalOrder + 1,
 					&(dREtaNode[(a-1) * nVerticalOrder]),
-- 
2.43.0


From 7b4f3a31e1d7ddd6cc99c371e55887135e08e443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:56 +0000
Subject: [PATCH 21/39] fix: store the tracer diffusion matrix of a column in
 the band width its solver uses

---
 src/atm/VerticalDynamicsFEM.cpp   | 6 ++++++
 src/atm/VerticalDynamicsFEM.h     | 3 ++-
 src/atm/VerticalDynamicsFEMV2.cpp | 8 +++++++-
 src/atm/VerticalDynamicsFEMV2.h   | 3 ++-
 src/atm/VerticalDynamicsSchur.cpp | 8 +++++++-
 src/atm/VerticalDynamicsSchur.h   | 3 ++-
 6 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/atm/VerticalDynamicsFEM.cpp b/src/atm/VerticalDynamicsFEM.cpp
index 361319f..5dd7262 100644
--- a/src/atm/VerticalDynamicsFEM.cpp
+++ b/src/atm/VerticalDynamicsFEM.cpp
@@ -387,7 +387,13 @@ void VerticalDynamicsFEM::Initialize() {
 	m_dUpdateDensityREdge.Allocate(nRElements+1);
 
 	m_vecTracersF.Allocate(nRElements);
+#if defined(USE_JACOBIAN_DIAGONAL)
+	// Banded storage as required by DGBTRF
+	m_matTracersLUDF.Allocate(
+		nRElements, 3 * (2 * m_nVerticalOrder - 1) + 1);
+#else
 	m_matTracersLUDF.Allocate(nRElements, nRElements);
+#endif
 	m_vecTracersIPiv.Allocate(nRElements);
 
 	// Compute upwinding coefficient
diff --git a/src/atm/VerticalDynamicsFEM.h b/src/atm/VerticalDynamicsFEM.h
index f4e1017..2b8dba3 100644
--- a/src/atm/VerticalDynamicsFEM.h
+++ b/src/atm/VerticalDynamicsFEM.h
@@ -130,7 +130,8 @@ protected:
 		return (m_nRElements * k0 + k1);
 #elif defined(USE_JACOBIAN_DIAGONAL)
 		int nOffDiagonals = 2 * (2 * m_nVerticalOrder - 1);
-		return (nOffDiagonals + k1 - k0) + m_nRElements * k0;
+		int nWidth = 3 * (2 * m_nVerticalOrder - 1) + 1;
+		return (nOffDiagonals + k1 - k0) + nWidth * k0;
 #else
 		_EXCEPTION();
 #endif
diff --git a/src/atm/VerticalDynamicsFEMV2.cpp b/src/atm/VerticalDynamicsFEMV2.cpp
index fb360a6..e1984c2 100644
--- a/src/atm/VerticalDynamicsFEMV2.cpp
+++ b/src/atm/VerticalDynamicsFEMV2.cpp
@@ -395,7 +395,13 @@ void VerticalDynamicsFEMV2::Initialize() {
 	m_dUpdateDensityREdge.Allocate(nRElements+1);
 
 	m_vecTracersF.Allocate(nRElements);
+#if defined(USE_JACOBIAN_DIAGONAL)
+	// Banded storage as required by DGBTRF
+	m_matTracersLUDF.Allocate(
+		nRElements, 3 * (2 * m_nVerticalOrder - 1) + 1);
+#else
 	m_matTracersLUDF.Allocate(nRElements, nRElements);
+#endif
 	m_vecTracersIPiv.Allocate(nRElements);
 
 	// Compute upwinding coefficient
@@ -4175,7 +4181,7 @@ void VerticalDynamicsFEMV2::UpdateColumnTracers(
 
 					dTracersLUDF[TracerMatFIx(n, k)] +=
 						dDiffREdgeToNode[k][m]
-						* dJacobianREdge[m][m_iA][m_iB]
+						* dJacobianREdge[m_iA][m_iB][m]
 						/ dJacobianNode[m_iA][m_iB][k]
 						* dInterpNodeToREdge[m][n]
 						* m_dXiDotREdge[m];
diff --git a/src/atm/VerticalDynamicsFEMV2.h b/src/atm/VerticalDynamicsFEMV2.h
index 57e9fc9..8c7a868 100644
--- a/src/atm/VerticalDynamicsFEMV2.h
+++ b/src/atm/VerticalDynamicsFEMV2.h
@@ -130,7 +130,8 @@ protected:
 		return (m_nRElements * k0 + k1);
 #elif defined(USE_JACOBIAN_DIAGONAL)
 		int nOffDiagonals = 2 * (2 * m_nVerticalOrder - 1);
-		return (nOffDiagonals + k1 - k0) + m_nRElements * k0;
+		int nWidth = 3 * (2 * m_nVerticalOrder - 1) + 1;
+		return (nOffDiagonals + k1 - k0) + nWidth * k0;
 #else
 		_EXCEPTION();
 #endif
diff --git a/src/atm/VerticalDynamicsSchur.cpp b/src/atm/VerticalDynamicsSchur.cpp
index 0d6688f..55465f9 100644
--- a/src/atm/VerticalDynamicsSchur.cpp
+++ b/src/atm/VerticalDynamicsSchur.cpp
@@ -418,7 +418,13 @@ void VerticalDynamicsSchur::Initialize() {
 	m_dUpdateDensityREdge.Allocate(nRElements+1);
 
 	m_vecTracersF.Allocate(nRElements);
+#if defined(USE_JACOBIAN_DIAGONAL)
+	// Banded storage as required by DGBTRF
+	m_matTracersLUDF.Allocate(
+		nRElements, 3 * (2 * m_nVerticalOrder - 1) + 1);
+#else
 	m_matTracersLUDF.Allocate(nRElements, nRElements);
+#endif
 	m_vecTracersIPiv.Allocate(nRElements);
 
 	// Compute upwinding coefficient
@@ -3758,7 +3764,7 @@ void VerticalDynamicsSchur::UpdateColumnTracers(
 
 					dTracersLUDF[TracerMatFIx(n, k)] +=
 						dDiffREdgeToNode[k][m]
-						* dJacobianREdge[m][m_iA][m_iB]
+						* dJacobianREdge[m_iA][m_iB][m]
 						/ dJacobianNode[m_iA][m_iB][k]
 						* dInterpNodeToREdge[m][n]
 						* m_dXiDotREdge[m];
diff --git a/src/atm/VerticalDynamicsSchur.h b/src/atm/VerticalDynamicsSchur.h
index 5a06aa4..1e309e7 100644
--- a/src/atm/VerticalDynamicsSchur.h
+++ b/src/atm/VerticalDynamicsSchur.h
@@ -167,7 +167,8 @@ protected:
 		return (m_nRElements * k0 + k1);
 #elif defined(USE_JACOBIAN_DIAGONAL)
 		int nOffDiagonals = 2 * (2 * m_nVerticalOrder - 1);
-		return (nOffDiagonals + k1 - k0) + m_nRElements * k0;
+		int nWidth = 3 * (2 * m_nVerticalOrder - 1) + 1;
+		return (nOffDiagonals + k1 - k0) + nWidth * k0;
 #else
 		_EXCEPTION();
 #endif
-- 
2.43.0


From 59c691df15e6ae35b3c2e4a3a37e3af31126d3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:13 +0000
Subject: [PATCH 22/39] fix: index the state of coincident columns by (i,j,k)
 in the V2 and Schur implicit steps

---
 src/atm/VerticalDynamicsFEMV2.cpp | 22 +++++------
 src/atm/VerticalDynamicsSchur.cpp | 66 +++++++++++++++----------------
 2 files changed, 44 insertions(+), 44 deletions(-)

diff --git a/src/atm/VerticalDynamicsFEMV2.cpp b/src/atm/VerticalDynamicsFEMV2.cpp
index e1984c2..ab2cee3 100644
--- a/src/atm/VerticalDynamicsFEMV2.cpp
+++ b/src/atm/VerticalDynamicsFEMV2.cpp
@@ -1736,34 +1736,34 @@ void VerticalDynamicsFEMV2::StepImplicit(
 			int iB = box.GetBInteriorBegin() + b * m_nHorizontalOrder - 1;
 
 			for (int k = 0; k < nRElements; k++) {
-				//dataUpdateNode[UIx][k][i][iB]
+				//dataUpdateNode[UIx][i][iB][k]
 				//	= dataUpdateNode[UIx][i][iB+1][k];
-				//dataUpdateNode[VIx][k][i][iB]
+				//dataUpdateNode[VIx][i][iB][k]
 				//	= dataUpdateNode[VIx][i][iB+1][k];
-				dataUpdateNode[PIx][k][i][iB]
+				dataUpdateNode[PIx][i][iB][k]
 					= dataUpdateNode[PIx][i][iB+1][k];
-				dataUpdateNode[WIx][k][i][iB]
+				dataUpdateNode[WIx][i][iB][k]
 					= dataUpdateNode[WIx][i][iB+1][k];
-				dataUpdateNode[RIx][k][i][iB]
+				dataUpdateNode[RIx][i][iB][k]
 					= dataUpdateNode[RIx][i][iB+1][k];
 
 				for (int c = 0; c < nTracerCount; c++) {
-					dataUpdateTracer[c][k][i][iB]
+					dataUpdateTracer[c][i][iB][k]
 						= dataUpdateTracer[c][i][iB+1][k];
 				}
 
 			}
 
 			for (int k = 0; k <= nRElements; k++) {
-				//dataUpdateREdge[UIx][k][i][iB]
+				//dataUpdateREdge[UIx][i][iB][k]
 				//	= dataUpdateREdge[UIx][i][iB+1][k];
-				//dataUpdateREdge[VIx][k][i][iB]
+				//dataUpdateREdge[VIx][i][iB][k]
 				//	= dataUpdateREdge[VIx][i][iB+1][k];
-				dataUpdateREdge[PIx][k][i][iB]
+				dataUpdateREdge[PIx][i][iB][k]
 					= dataUpdateREdge[PIx][i][iB+1][k];
-				dataUpdateREdge[WIx][k][i][iB]
+				dataUpdateREdge[WIx][i][iB][k]
 					= dataUpdateREdge[WIx][i][iB+1][k];
-				dataUpdateREdge[RIx][k][i][iB]
+				dataUpdateREdge[RIx][i][iB][k]
 					= dataUpdateREdge[RIx][i][iB+1][k];
 			}
 		}
diff --git a/src/atm/VerticalDynamicsSchur.cpp b/src/atm/VerticalDynamicsSchur.cpp
index 55465f9..750c2fc 100644
--- a/src/atm/VerticalDynamicsSchur.cpp
+++ b/src/atm/VerticalDynamicsSchur.cpp
@@ -1893,33 +1893,33 @@ void VerticalDynamicsSchur::StepImplicit(
 
 					for (int k = 0; k < nRElements; k++) {
 						//dataUpdateNode[UIx][iA][iB][k]
-						//	= dataUpdateNode[UIx][k][iA+1][iB];
+						//	= dataUpdateNode[UIx][iA+1][iB][k];
 						//dataUpdateNode[VIx][iA][iB][k]
-						//	= dataUpdateNode[VIx][k][iA+1][iB];
+						//	= dataUpdateNode[VIx][iA+1][iB][k];
 						dataUpdateNode[PIx][iA][iB][k]
-							= dataUpdateNode[PIx][k][iA+1][iB];
+							= dataUpdateNode[PIx][iA+1][iB][k];
 						dataUpdateNode[WIx][iA][iB][k]
-							= dataUpdateNode[WIx][k][iA+1][iB];
+							= dataUpdateNode[WIx][iA+1][iB][k];
 						dataUpdateNode[RIx][iA][iB][k]
-							= dataUpdateNode[RIx][k][iA+1][iB];
+							= dataUpdateNode[RIx][iA+1][iB][k];
 
 						for (int c = 0; c < nTracerCount; c++) {
 							dataUpdateTracer[c][iA][iB][k]
-								= dataUpdateTracer[c][k][iA+1][iB];
+								= dataUpdateTracer[c][iA+1][iB][k];
 						}
 					}
 
 					for (int k = 0; k <= nRElements; k++) {
 						//dataUpdateREdge[UIx][iA][iB][k]
-						//	= dataUpdateREdge[UIx][k][iA+1][iB];
+						//	= dataUpdateREdge[UIx][iA+1][iB][k];
 						//dataUpdateREdge[VIx][iA][iB][k]
-						//	= dataUpdateREdge[VIx][k][iA+1][iB];
+						//	= dataUpdateREdge[VIx][iA+1][iB][k];
 						dataUpdateREdge[PIx][iA][iB][k]
-							= dataUpdateREdge[PIx][k][iA+1][iB];
+							= dataUpdateREdge[PIx][iA+1][iB][k];
 						dataUpdateREdge[WIx][iA][iB][k]
-							= dataUpdateREdge[WIx][k][iA+1][iB];
+							= dataUpdateREdge[WIx][iA+1][iB][k];
 						dataUpdateREdge[RIx][iA][iB][k]
-							= dataUpdateREdge[RIx][k][iA+1][iB];
+							= dataUpdateREdge[RIx][iA+1][iB][k];
 					}
 				}
 			}
@@ -1931,35 +1931,35 @@ void VerticalDynamicsSchur::StepImplicit(
 			int iB = box.GetBInteriorBegin() + b * m_nHorizontalOrder - 1;
 
 			for (int k = 0; k < nRElements; k++) {
-				//dataUpdateNode[UIx][k][i][iB]
-				//	= dataUpdateNode[UIx][k][i][iB+1];
-				//dataUpdateNode[VIx][k][i][iB]
-				//	= dataUpdateNode[VIx][k][i][iB+1];
-				dataUpdateNode[PIx][k][i][iB]
-					= dataUpdateNode[PIx][k][i][iB+1];
-				dataUpdateNode[WIx][k][i][iB]
-					= dataUpdateNode[WIx][k][i][iB+1];
-				dataUpdateNode[RIx][k][i][iB]
-					= dataUpdateNode[RIx][k][i][iB+1];
+				//dataUpdateNode[UIx][i][iB][k]
+				//	= dataUpdateNode[UIx][i][iB+1][k];
+				//dataUpdateNode[VIx][i][iB][k]
+				//	= dataUpdateNode[VIx][i][iB+1][k];
+				dataUpdateNode[PIx][i][iB][k]
+					= dataUpdateNode[PIx][i][iB+1][k];
+				dataUpdateNode[WIx][i][iB][k]
+					= dataUpdateNode[WIx][i][iB+1][k];
+				dataUpdateNode[RIx][i][iB][k]
+					= dataUpdateNode[RIx][i][iB+1][k];
 
 				for (int c = 0; c < nTracerCount; c++) {
-					dataUpdateTracer[c][k][i][iB]
-						= dataUpdateTracer[c][k][i][iB+1];
+					dataUpdateTracer[c][i][iB][k]
+						= dataUpdateTracer[c][i][iB+1][k];
 				}
 
 			}
 
 			for (int k = 0; k <= nRElements; k++) {
-				//dataUpdateREdge[UIx][k][i][iB]
-				//	= dataUpdateREdge[UIx][k][i][iB+1];
-				//dataUpdateREdge[VIx][k][i][iB]
-				//	= dataUpdateREdge[VIx][k][i][iB+1];
-				dataUpdateREdge[PIx][k][i][iB]
-					= dataUpdateREdge[PIx][k][i][iB+1];
-				dataUpdateREdge[WIx][k][i][iB]
-					= dataUpdateREdge[WIx][k][i][iB+1];
-				dataUpdateREdge[RIx][k][i][iB]
-					= dataUpdateREdge[RIx][k][i][iB+1];
+				//dataUpdateREdge[UIx][i][iB][k]
+				//	= dataUpdateREdge[UIx][i][iB+1][k];
+				//dataUpdateREdge[VIx][i][iB][k]
+				//	= dataUpdateREdge[VIx][i][iB+1][k];
+				dataUpdateREdge[PIx][i][iB][k]
+					= dataUpdateREdge[PIx][i][iB+1][k];
+				dataUpdateREdge[WIx][i][iB][k]
+					= dataUpdateREdge[WIx][i][iB+1][k];
+				dataUpdateREdge[RIx][i][iB][k]
+					= dataUpdateREdge[RIx][i][iB+1][k];
 			}
 		}
 		}
-- 
2.43.0


From 341922df1622f1637923a802062e4ba4194c4eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:33 +0000
Subject: [PATCH 23/39] fix: make the vertical upwinding of densities
 conservative over terrain

---
 src/atm/VerticalDynamicsFEM.cpp | 60 +++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 17 deletions(-)

diff --git a/src/atm/VerticalDynamicsFEM.cpp b/src/atm/VerticalDynamicsFEM.cpp
index 5dd7262..6c0c83e 100644
--- a/src/atm/VerticalDynamicsFEM.cpp
+++ b/src/atm/VerticalDynamicsFEM.cpp
@@ -2662,7 +2662,8 @@ void VerticalDynamicsFEM::BuildF(
 		// Calculate weights
 		for (int a = 0; a < nFiniteElements - 1; a++) {
 			int k = (a+1) * nNodesPerFiniteElement;
-			m_dUpwindWeights[a] = fabs(m_dXiDotREdge[k]);
+			m_dUpwindWeights[a] =
+				m_dColumnJacobianREdge[k] * fabs(m_dXiDotREdge[k]);
 		}
 
 		// Loop through all variables
@@ -2712,7 +2713,8 @@ void VerticalDynamicsFEM::BuildF(
 					1);
 
 				for (int k = 0; k < nRElements; k++) {
-					dF[VecFIx(FIxFromCIx(c), k)] -= m_dStateAux[k];
+					dF[VecFIx(FIxFromCIx(c), k)] -=
+						m_dStateAux[k] * m_dColumnInvJacobianNode[k];
 				}
 			}
 		}
@@ -2916,14 +2918,18 @@ void VerticalDynamicsFEM::BuildJacobianF_Diffusion(
 		} else {
 
 			for (int a = 1; a < nFiniteElements; a++) {
+				double dJacobian =
+					m_dColumnJacobianREdge[a * nNodesPerFiniteElement];
+
 				double dWeight =
-					fabs(m_dXiDotREdge[a * nNodesPerFiniteElement]);
+					dJacobian
+					* fabs(m_dXiDotREdge[a * nNodesPerFiniteElement]);
 
 				double dSignWeight;
 				if (m_dXiDotREdge[a * nNodesPerFiniteElement] > 0.0) {
-					dSignWeight = 1.0 * m_dColumnContraMetricXiREdge[a * nNodesPerFiniteElement][2];
+					dSignWeight = dJacobian * m_dColumnContraMetricXiREdge[a * nNodesPerFiniteElement][2];
 				} else if (m_dXiDotREdge[a * nNodesPerFiniteElement] < 0.0) {
-					dSignWeight = -1.0 * m_dColumnContraMetricXiREdge[a * nNodesPerFiniteElement][2];
+					dSignWeight = - dJacobian * m_dColumnContraMetricXiREdge[a * nNodesPerFiniteElement][2];
 				} else {
 					dSignWeight = 0.0;
 				}
@@ -2940,6 +2946,7 @@ void VerticalDynamicsFEM::BuildJacobianF_Diffusion(
 					for (; n < iPenaltyLeftEnd[k]; n++) {
 						dDG[MatFIx(FWIx, kLeftEnd, FIxFromCIx(c), k)] -=
 							dSignWeight
+							* m_dColumnInvJacobianNode[k]
 							* dPenaltyLeft[k][n]
 							* m_dStateNode[c][n];
 					}
@@ -2951,6 +2958,7 @@ void VerticalDynamicsFEM::BuildJacobianF_Diffusion(
 					for (; n < iPenaltyRightEnd[k]; n++) {
 						dDG[MatFIx(FWIx, kRightBegin, FIxFromCIx(c), k)] -=
 							dSignWeight
+							* m_dColumnInvJacobianNode[k]
 							* dPenaltyRight[k][n]
 							* m_dStateNode[c][n];
 					}
@@ -2961,7 +2969,9 @@ void VerticalDynamicsFEM::BuildJacobianF_Diffusion(
 					int n = iPenaltyLeftBegin[k];
 					for (; n < iPenaltyLeftEnd[k]; n++) {
 						dDG[MatFIx(FIxFromCIx(c), n, FIxFromCIx(c), k)] -=
-							dWeight * dPenaltyLeft[k][n];
+							dWeight
+							* m_dColumnInvJacobianNode[k]
+							* dPenaltyLeft[k][n];
 					}
 				}
 
@@ -2970,7 +2980,9 @@ void VerticalDynamicsFEM::BuildJacobianF_Diffusion(
 					int n = iPenaltyRightBegin[k];
 					for (; n < iPenaltyRightEnd[k]; n++) {
 						dDG[MatFIx(FIxFromCIx(c), n, FIxFromCIx(c), k)] -=
-							dWeight * dPenaltyRight[k][n];
+							dWeight
+							* m_dColumnInvJacobianNode[k]
+							* dPenaltyRight[k][n];
 					}
 				}
 			}
@@ -3991,7 +4003,9 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 				int kRightBegin = a * nNodesPerFiniteElement;
 				int kRightEnd = (a+1) * nNodesPerFiniteElement;
 
-				double dWeight = fabs(m_dXiDotREdge[kLeftEnd]);
+				double dJacobian = dJacobianREdge[m_iA][m_iB][kLeftEnd];
+
+				double dWeight = dJacobian * fabs(m_dXiDotREdge[kLeftEnd]);
 
 				double dSignWeight;
 				if (m_dXiDotREdge[kLeftEnd] > 0.0) {
@@ -4007,7 +4021,9 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 					int n = iPenaltyLeftBegin[k];
 					for (; n < iPenaltyLeftEnd[k]; n++) {
 						dTracersLUDF[TracerMatFIx(n, k)] -=
-							dWeight * dPenaltyLeft[k][n];
+							dWeight
+							/ dJacobianNode[m_iA][m_iB][k]
+							* dPenaltyLeft[k][n];
 					}
 				}
 
@@ -4016,7 +4032,9 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 					int n = iPenaltyRightBegin[k];
 					for (; n < iPenaltyRightEnd[k]; n++) {
 						dTracersLUDF[TracerMatFIx(n, k)] -=
-							dWeight * dPenaltyRight[k][n];
+							dWeight
+							/ dJacobianNode[m_iA][m_iB][k]
+							* dPenaltyRight[k][n];
 					}
 				}
 			}
@@ -4172,13 +4190,17 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 			if (m_fFullyExplicit) {
 				for (int a = 0; a < nFiniteElements - 1; a++) {
 					int k = (a+1) * nNodesPerFiniteElement;
-					m_dUpwindWeights[a] = fabs(m_dXiDotREdge[k]);
+					m_dUpwindWeights[a] =
+						dJacobianREdge[m_iA][m_iB][k]
+						* fabs(m_dXiDotREdge[k]);
 				}
 
 			} else {
 				for (int a = 0; a < nFiniteElements - 1; a++) {
 					int k = (a+1) * nNodesPerFiniteElement;
-					m_dUpwindWeights[a] = fabs(m_dXiDotREdgeInitial[k]);
+					m_dUpwindWeights[a] =
+						dJacobianREdge[m_iA][m_iB][k]
+						* fabs(m_dXiDotREdgeInitial[k]);
 				}
 			}
 
@@ -4192,7 +4214,8 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 				1);
 
 			for (int k = 0; k < nRElements; k++) {
-				m_vecTracersF[k] -= m_dStateAux[k];
+				m_vecTracersF[k] -=
+					m_dStateAux[k] / dJacobianNode[m_iA][m_iB][k];
 			}
 
 			// Apply implicit velocity correction
@@ -4205,8 +4228,7 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 					int kRightBegin = a * nNodesPerFiniteElement;
 					int kRightEnd = (a+1) * nNodesPerFiniteElement;
 
-					double dWeight =
-						fabs(m_dXiDotREdgeInitial[kLeftEnd]);
+					double dJacobian = dJacobianREdge[m_iA][m_iB][kLeftEnd];
 
 					double dSignWeight;
 					if (m_dXiDotREdgeInitial[kLeftEnd] > 0.0) {
@@ -4227,7 +4249,9 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 						int n = iPenaltyLeftBegin[k];
 						for (; n < iPenaltyLeftEnd[k]; n++) {
 							m_vecTracersF[k] -=
-								dPenaltyLeft[k][n]
+								dJacobian
+								/ dJacobianNode[m_iA][m_iB][k]
+								* dPenaltyLeft[k][n]
 								* m_dTracerDensityNode[n]
 								* dLeftJumpConUx;
 						}
@@ -4243,7 +4267,9 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 						int n = iPenaltyRightBegin[k];
 						for (; n < iPenaltyRightEnd[k]; n++) {
 							m_vecTracersF[k] -=
-								dPenaltyRight[k][n]
+								dJacobian
+								/ dJacobianNode[m_iA][m_iB][k]
+								* dPenaltyRight[k][n]
 								* m_dTracerDensityNode[n]
 								* dRightJumpConUx;
 						}
-- 
2.43.0


From 6eb1243cc514785d5b9d9f0bcbc7a14b7c0fdf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 24/39] fix: transport tracers in the shallow-water equations
 of the V2 horizontal dynamics

---
 src/atm/HorizontalDynamicsFEMV2.cpp | 63 ++++++++++++++++++++++++++---
 1 file changed, 57 insertions(+), 6 deletions(-)

diff --git a/src/atm/HorizontalDynamicsFEMV2.cpp b/src/atm/HorizontalDynamicsFEMV2.cpp
index 479001c..eef6485 100644
--- a/src/atm/HorizontalDynamicsFEMV2.cpp
+++ b/src/atm/HorizontalDynamicsFEMV2.cpp
@@ -375,6 +375,15 @@ void HorizontalDynamicsFEMV2::StepShallowWater(
 		DataArray4D<double> & dataUpdateNode =
 			pPatch->GetDataState(iDataUpdate, DataLocation_Node);
 
+		const DataArray4D<double> & dataInitialTracer =
+			pPatch->GetDataTracers(iDataInitial);
+
+		DataArray4D<double> & dataUpdateTracer =
+			pPatch->GetDataTracers(iDataUpdate);
+
+		// Number of tracers
+		const int nTracerCount = dataInitialTracer.GetSize(0);
+
 		// Element grid spacing and derivative coefficients
 		const double dElementDeltaA = pPatch->GetElementDeltaA();
 		const double dElementDeltaB = pPatch->GetElementDeltaB();
@@ -438,18 +447,36 @@ void HorizontalDynamicsFEMV2::StepShallowWater(
 					const int iA = iElementA + i;
 					const int iB = iElementB + j;
 
+					// Base fluxes (area times velocity)
+					const double dAlphaBaseFlux =
+						dJacobian2D(iA,iB)
+						* m_dAuxDataNode(ConUaIx,i,j,k);
+
+					const double dBetaBaseFlux =
+						dJacobian2D(iA,iB)
+						* m_dAuxDataNode(ConUbIx,i,j,k);
+
 					// Height flux
 					m_dAlphaMassFlux(i,j,k) =
-						dJacobian2D(iA,iB)
+						dAlphaBaseFlux
 						* (dataInitialNode(HIx,iA,iB,k)
-							- dTopography(iA,iB))
-						* m_dAuxDataNode(ConUaIx,i,j,k);
+							- dTopography(iA,iB));
 
 					m_dBetaMassFlux(i,j,k) =
-						dJacobian2D(iA,iB)
+						dBetaBaseFlux
 						* (dataInitialNode(HIx,iA,iB,k)
-							- dTopography(iA,iB))
-						* m_dAuxDataNode(ConUbIx,i,j,k);
+							- dTopography(iA,iB));
+
+					// Tracer flux
+					for (int c = 0; c < nTracerCount; c++) {
+						m_dAlphaTracerFlux(c,i,j,k) =
+							dAlphaBaseFlux
+							* dataInitialTracer(c,iA,iB,k);
+
+						m_dBetaTracerFlux(c,i,j,k) =
+							dBetaBaseFlux
+							* dataInitialTracer(c,iA,iB,k);
+					}
 
 				}
 				}
@@ -577,6 +604,30 @@ void HorizontalDynamicsFEMV2::StepShallowWater(
 						dDeltaT * dInvJacobian2D * (
 							  dDaMassFluxA
 							+ dDbMassFluxB);
+
+					// Update tracers
+					for (int c = 0; c < nTracerCount; c++) {
+						double dDaTracerFluxA = 0.0;
+						double dDbTracerFluxB = 0.0;
+
+						for (int s = 0; s < nHorizontalOrder; s++) {
+							dDaTracerFluxA -=
+								m_dAlphaTracerFlux(c,s,j,k)
+								* dStiffness1D(i,s);
+
+							dDbTracerFluxB -=
+								m_dBetaTracerFlux(c,i,s,k)
+								* dStiffness1D(j,s);
+						}
+
+						dDaTracerFluxA *= dInvElementDeltaA;
+						dDbTracerFluxB *= dInvElementDeltaB;
+
+						dataUpdateTracer(c,iA,iB,k) -=
+							dDeltaT * dInvJacobian2D * (
+								  dDaTracerFluxA
+								+ dDbTracerFluxB);
+					}
 				}
 				}
 			}
-- 
2.43.0


From 1e35229425baf312f727496567ccf0a34accecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:26 +0000
Subject: [PATCH 25/39] fix: transport tracers in the nonhydrostatic equations
 of the V2 horizontal dynamics

---
 src/atm/HorizontalDynamicsFEMV2.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/atm/HorizontalDynamicsFEMV2.cpp b/src/atm/HorizontalDynamicsFEMV2.cpp
index eef6485..c87a045 100644
--- a/src/atm/HorizontalDynamicsFEMV2.cpp
+++ b/src/atm/HorizontalDynamicsFEMV2.cpp
@@ -987,6 +987,17 @@ void HorizontalDynamicsFEMV2::StepNonhydrostaticPrimitive(
 				m_dBetaPressureFlux(i,j,k) =
 					  dBetaBaseFlux
 					* dataInitialNode(PIx,iA,iB,k);
+
+				// Tracer flux
+				for (int c = 0; c < nTracerCount; c++) {
+					m_dAlphaTracerFlux(c,i,j,k) =
+						dAlphaBaseFlux
+						* dataInitialTracer(c,iA,iB,k);
+
+					m_dBetaTracerFlux(c,i,j,k) =
+						dBetaBaseFlux
+						* dataInitialTracer(c,iA,iB,k);
+				}
 			}
 			}
 			}
@@ -1100,7 +1111,7 @@ void HorizontalDynamicsFEMV2::StepNonhydrostaticPrimitive(
 					dDeltaT * dInvJacobian * (
 						  dDaPressureFluxA
 						+ dDbPressureFluxB);
-/*
+
 				// Update tracers
 				for (int c = 0; c < nTracerCount; c++) {
 					double dDaTracerFluxA = 0.0;
@@ -1125,7 +1136,6 @@ void HorizontalDynamicsFEMV2::StepNonhydrostaticPrimitive(
 							  dDaTracerFluxA
 							+ dDbTracerFluxB);
 				}
-*/
 			}
 			}
 			}
-- 
2.43.0


From e76a5e4dc83b992ea4b9fc3d4905a77092a7f56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 26/39] fix: step tracers explicitly where the vertical terms
 are stepped explicitly

---
 src/atm/VerticalDynamicsFEM.cpp   | 12 ++++++++----
 src/atm/VerticalDynamicsFEM.h     |  1 +
 src/atm/VerticalDynamicsFEMV2.cpp | 12 ++++++++----
 src/atm/VerticalDynamicsFEMV2.h   |  1 +
 src/atm/VerticalDynamicsSchur.cpp | 12 ++++++++----
 src/atm/VerticalDynamicsSchur.h   |  1 +
 6 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/atm/VerticalDynamicsFEM.cpp b/src/atm/VerticalDynamicsFEM.cpp
index 6c0c83e..e34953f 100644
--- a/src/atm/VerticalDynamicsFEM.cpp
+++ b/src/atm/VerticalDynamicsFEM.cpp
@@ -604,6 +604,7 @@ void VerticalDynamicsFEM::StepImplicitTermsExplicitly(
 
 			// Update tracers in column
 			UpdateColumnTracers(
+				true,
 				dDeltaT,
 				dataInitialNode,
 				dataUpdateNode,
@@ -807,6 +808,7 @@ void VerticalDynamicsFEM::StepExplicit(
 
 				// Update tracers in column
 				UpdateColumnTracers(
+					true,
 					dDeltaT,
 					dataInitialNode,
 					dataUpdateNode,
@@ -1532,6 +1534,7 @@ void VerticalDynamicsFEM::StepImplicit(
 
 			// Update tracers in column
 			UpdateColumnTracers(
+				false,
 				dDeltaT,
 				dataInitialNode,
 				dataUpdateNode,
@@ -3799,6 +3802,7 @@ void VerticalDynamicsFEM::Evaluate(
 ///////////////////////////////////////////////////////////////////////////////
 
 void VerticalDynamicsFEM::UpdateColumnTracers(
+	bool fFullyExplicit,
 	double dDeltaT,
 	const DataArray4D<double> & dataInitialNode,
 	const DataArray4D<double> & dataUpdateNode,
@@ -3927,7 +3931,7 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 
 	// Only compute off-diagonal terms of the Jacobian if implicit advection
 	// is being performed.
-	if (!m_fFullyExplicit) {
+	if (!fFullyExplicit) {
 
 		// No implicit uniform diffusion of tracers (yet)
 		if (m_fUniformDiffusionVar[TracerIx]) {
@@ -4069,7 +4073,7 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 	}
 
 	// Calculate u^xi on model interfaces (using updated state if implicit)
-	if (m_fFullyExplicit) {
+	if (fFullyExplicit) {
 		if (pGrid->GetVarLocation(WIx) == DataLocation_REdge) {
 			for (int k = 0; k <= nRElements; k++) {
 				m_dStateREdge[WIx][k] =
@@ -4187,7 +4191,7 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 				pGrid->GetOpPenaltyNodeToNode();
 
 			// Calculate weights
-			if (m_fFullyExplicit) {
+			if (fFullyExplicit) {
 				for (int a = 0; a < nFiniteElements - 1; a++) {
 					int k = (a+1) * nNodesPerFiniteElement;
 					m_dUpwindWeights[a] =
@@ -4219,7 +4223,7 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 			}
 
 			// Apply implicit velocity correction
-			if (!m_fFullyExplicit) {
+			if (!fFullyExplicit) {
 				for (int a = 1; a < nFiniteElements; a++) {
 
 					int kLeftBegin = (a-1) * nNodesPerFiniteElement;
diff --git a/src/atm/VerticalDynamicsFEM.h b/src/atm/VerticalDynamicsFEM.h
index 2b8dba3..093e1f7 100644
--- a/src/atm/VerticalDynamicsFEM.h
+++ b/src/atm/VerticalDynamicsFEM.h
@@ -245,6 +245,7 @@ protected:
 	///		Update tracers in the vertical.
 	///	</summary>
 	void UpdateColumnTracers(
+		bool fFullyExplicit,
 		double dDeltaT,
 		const DataArray4D<double> & dataInitialNode,
 		const DataArray4D<double> & dataUpdateNode,
diff --git a/src/atm/VerticalDynamicsFEMV2.cpp b/src/atm/VerticalDynamicsFEMV2.cpp
index ab2cee3..d8e23f0 100644
--- a/src/atm/VerticalDynamicsFEMV2.cpp
+++ b/src/atm/VerticalDynamicsFEMV2.cpp
@@ -619,6 +619,7 @@ void VerticalDynamicsFEMV2::StepImplicitTermsExplicitly(
 
 			// Update tracers in column
 			UpdateColumnTracers(
+				true,
 				dDeltaT,
 				dataInitialNode,
 				dataUpdateNode,
@@ -842,6 +843,7 @@ void VerticalDynamicsFEMV2::StepExplicit(
 
 				// Update tracers in column
 				UpdateColumnTracers(
+					true,
 					dDeltaT,
 					dataInitialNode,
 					dataUpdateNode,
@@ -1663,6 +1665,7 @@ void VerticalDynamicsFEMV2::StepImplicit(
 
 			// Update tracers in column
 			UpdateColumnTracers(
+				false,
 				dDeltaT,
 				dataInitialNode,
 				dataUpdateNode,
@@ -3992,6 +3995,7 @@ void VerticalDynamicsFEMV2::Evaluate(
 ///////////////////////////////////////////////////////////////////////////////
 
 void VerticalDynamicsFEMV2::UpdateColumnTracers(
+	bool fFullyExplicit,
 	double dDeltaT,
 	const DataArray4D<double> & dataInitialNode,
 	const DataArray4D<double> & dataUpdateNode,
@@ -4120,7 +4124,7 @@ void VerticalDynamicsFEMV2::UpdateColumnTracers(
 
 	// Only compute off-diagonal terms of the Jacobian if implicit advection
 	// is being performed.
-	if (!m_fFullyExplicit) {
+	if (!fFullyExplicit) {
 
 		// No implicit uniform diffusion of tracers (yet)
 		if (m_fUniformDiffusionVar[TracerIx]) {
@@ -4259,7 +4263,7 @@ void VerticalDynamicsFEMV2::UpdateColumnTracers(
 	}
 
 	// Calculate u^xi on model interfaces (using updated state if implicit)
-	if (m_fFullyExplicit) {
+	if (fFullyExplicit) {
 		if (pGrid->GetVarLocation(WIx) == DataLocation_REdge) {
 			for (int k = 0; k <= nRElements; k++) {
 				m_dStateREdge[WIx][k] =
@@ -4380,7 +4384,7 @@ void VerticalDynamicsFEMV2::UpdateColumnTracers(
 				pGrid->GetOpPenaltyNodeToNode();
 
 			// Calculate weights
-			if (m_fFullyExplicit) {
+			if (fFullyExplicit) {
 				for (int a = 0; a < nFiniteElements - 1; a++) {
 					int k = (a+1) * nNodesPerFiniteElement;
 					m_dUpwindWeights[a] = fabs(m_dXiDotREdge[k]);
@@ -4407,7 +4411,7 @@ void VerticalDynamicsFEMV2::UpdateColumnTracers(
 			}
 
 			// Apply implicit velocity correction
-			if (!m_fFullyExplicit) {
+			if (!fFullyExplicit) {
 				for (int a = 1; a < nFiniteElements; a++) {
 
 					int kLeftBegin = (a-1) * nNodesPerFiniteElement;
diff --git a/src/atm/VerticalDynamicsFEMV2.h b/src/atm/VerticalDynamicsFEMV2.h
index 8c7a868..48020af 100644
--- a/src/atm/VerticalDynamicsFEMV2.h
+++ b/src/atm/VerticalDynamicsFEMV2.h
@@ -245,6 +245,7 @@ protected:
 	///		Update tracers in the vertical.
 	///	</summary>
 	void UpdateColumnTracers(
+		bool fFullyExplicit,
 		double dDeltaT,
 		const DataArray4D<double> & dataInitialNode,
 		const DataArray4D<double> & dataUpdateNode,
diff --git a/src/atm/VerticalDynamicsSchur.cpp b/src/atm/VerticalDynamicsSchur.cpp
index 750c2fc..93e0794 100644
--- a/src/atm/VerticalDynamicsSchur.cpp
+++ b/src/atm/VerticalDynamicsSchur.cpp
@@ -642,6 +642,7 @@ void VerticalDynamicsSchur::StepImplicitTermsExplicitly(
 
 			// Update tracers in column
 			UpdateColumnTracers(
+				true,
 				dDeltaT,
 				dataInitialNode,
 				dataUpdateNode,
@@ -856,6 +857,7 @@ void VerticalDynamicsSchur::StepExplicit(
 
 				// Update tracers in column
 				UpdateColumnTracers(
+					true,
 					dDeltaT,
 					dataInitialNode,
 					dataUpdateNode,
@@ -1858,6 +1860,7 @@ void VerticalDynamicsSchur::StepImplicit(
 
 			// Update tracers in column
 			UpdateColumnTracers(
+				false,
 				dDeltaT,
 				dataInitialNode,
 				dataUpdateNode,
@@ -3575,6 +3578,7 @@ void VerticalDynamicsSchur::Evaluate(
 ///////////////////////////////////////////////////////////////////////////////
 
 void VerticalDynamicsSchur::UpdateColumnTracers(
+	bool fFullyExplicit,
 	double dDeltaT,
 	const DataArray4D<double> & dataInitialNode,
 	const DataArray4D<double> & dataUpdateNode,
@@ -3703,7 +3707,7 @@ void VerticalDynamicsSchur::UpdateColumnTracers(
 
 	// Only compute off-diagonal terms of the Jacobian if implicit advection
 	// is being performed.
-	if (!m_fFullyExplicit) {
+	if (!fFullyExplicit) {
 
 		// No implicit uniform diffusion of tracers (yet)
 		if (m_fUniformDiffusionVar[TracerIx]) {
@@ -3842,7 +3846,7 @@ void VerticalDynamicsSchur::UpdateColumnTracers(
 	}
 
 	// Calculate u^xi on model interfaces (using updated state if implicit)
-	if (m_fFullyExplicit) {
+	if (fFullyExplicit) {
 		if (pGrid->GetVarLocation(WIx) == DataLocation_REdge) {
 			for (int k = 0; k <= nRElements; k++) {
 				m_dStateREdge[WIx][k] =
@@ -3963,7 +3967,7 @@ void VerticalDynamicsSchur::UpdateColumnTracers(
 				pGrid->GetOpPenaltyNodeToNode();
 
 			// Calculate weights
-			if (m_fFullyExplicit) {
+			if (fFullyExplicit) {
 				for (int a = 0; a < nFiniteElements - 1; a++) {
 					int k = (a+1) * nNodesPerFiniteElement;
 					m_dUpwindWeights[a] = fabs(m_dXiDotREdge[k]);
@@ -3990,7 +3994,7 @@ void VerticalDynamicsSchur::UpdateColumnTracers(
 			}
 
 			// Apply implicit velocity correction
-			if (!m_fFullyExplicit) {
+			if (!fFullyExplicit) {
 				for (int a = 1; a < nFiniteElements; a++) {
 
 					int kLeftBegin = (a-1) * nNodesPerFiniteElement;
diff --git a/src/atm/VerticalDynamicsSchur.h b/src/atm/VerticalDynamicsSchur.h
index 1e309e7..88a5605 100644
--- a/src/atm/VerticalDynamicsSchur.h
+++ b/src/atm/VerticalDynamicsSchur.h
@@ -282,6 +282,7 @@ protected:
 	///		Update tracers in the vertical.
 	///	</summary>
 	void UpdateColumnTracers(
+		bool fFullyExplicit,
 		double dDeltaT,
 		const DataArray4D<double> & dataInitialNode,
 		const DataArray4D<double> & dataUpdateNode,
-- 
2.43.0


From 1a59dcf528f88ebdb52f37917559d77ee39a5631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:22 +0000
Subject: [PATCH 27/39] fix: index the interface areas by (i,j,k) in the
 vertical advection of the V2 dynamics

---
 src/atm/VerticalDynamicsFEMV2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atm/VerticalDynamicsFEMV2.cpp b/src/atm/VerticalDynamicsFEMV2.cpp
index d8e23f0..1197203 100644
--- a/src/atm/VerticalDynamicsFEMV2.cpp
+++ b/src/atm/VerticalDynamicsFEMV2.cpp
@@ -909,14 +909,14 @@ void VerticalDynamicsFEMV2::StepExplicit(
 
 					dDeltaU -=
 						m_dStateREdge[RIx][l]
-						* dElementAreaREdge[l][i][j]
+						* dElementAreaREdge[i][j][l]
 						* m_dXiDotREdge[l]
 						* dInterpNodeToREdge[l][k]
 						* dCovDxUa;
 
 					dDeltaV -=
 						m_dStateREdge[RIx][l]
-						* dElementAreaREdge[l][i][j]
+						* dElementAreaREdge[i][j][l]
 						* m_dXiDotREdge[l]
 						* dInterpNodeToREdge[l][k]
 						* dCovDxUb;
-- 
2.43.0


From 8fd1b56655b063136c60e2cc38ced384f5e49412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 28/39] fix: set the Rayleigh strength at the model top
 interface of Cartesian grids

---
 src/atm/GridPatchCartesianGLL.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atm/GridPatchCartesianGLL.cpp b/src/atm/GridPatchCartesianGLL.cpp
index cb76333..b804c5c 100644
--- a/src/atm/GridPatchCartesianGLL.cpp
+++ b/src/atm/GridPatchCartesianGLL.cpp
@@ -554,7 +554,7 @@ void GridPatchCartesianGLL::EvaluateTestCase(
 						m_dataLon[i][j],
 						m_dataLat[i][j]);
 			}
-			for (int k = 0; k < m_grid.GetRElements(); k++) {
+			for (int k = 0; k <= m_grid.GetRElements(); k++) {
 				m_dataRayleighStrengthREdge[i][j][k] =
 					test.EvaluateRayleighStrength(
 						m_dataZInterfaces[i][j][k],
-- 
2.43.0


From 87137911185e629866bd0e70b7287d265f961231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:16 +0000
Subject: [PATCH 29/39] fix: evaluate the shallow-water kinetic energy from
 covariant velocities

---
 src/atm/GridPatch.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/atm/GridPatch.cpp b/src/atm/GridPatch.cpp
index faa64b6..5bc694f 100644
--- a/src/atm/GridPatch.cpp
+++ b/src/atm/GridPatch.cpp
@@ -966,19 +966,16 @@ double GridPatch::ComputeTotalEnergy(
 		for (int j = m_box.GetBInteriorBegin(); j < m_box.GetBInteriorEnd(); j++) {
 		for (int k = 0; k < nRElements; k++) {
 			double dUdotU =
-				+ m_dataContraMetric2DB(i,j,1)
+				+ m_dataContraMetric2DA(i,j,0)
 					* dataNode(UIx,i,j,k)
 					* dataNode(UIx,i,j,k)
-				- 2.0 * m_dataContraMetric2DA(i,j,1)
+				+ 2.0 * m_dataContraMetric2DA(i,j,1)
 					* dataNode(UIx,i,j,k)
 					* dataNode(VIx,i,j,k)
-				+ m_dataContraMetric2DA(i,j,0)
+				+ m_dataContraMetric2DB(i,j,1)
 					* dataNode(VIx,i,j,k)
 					* dataNode(VIx,i,j,k);
 
-			dUdotU *= m_dataJacobian2D(i,j)
-				* m_dataJacobian2D(i,j);
-
 			const double dKineticEnergy =
 				0.5 * dUdotU * (dataNode(HIx,i,j,k)
 						- m_dataTopography(i,j));
-- 
2.43.0


From b5529131530c0f20996bc95e2eba11cc24d75796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:16 +0000
Subject: [PATCH 30/39] fix: use the Coriolis parameter of the grid in the
 potential enstrophy

---
 src/atm/GridPatch.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/atm/GridPatch.cpp b/src/atm/GridPatch.cpp
index 5bc694f..d0fa1fa 100644
--- a/src/atm/GridPatch.cpp
+++ b/src/atm/GridPatch.cpp
@@ -1179,8 +1179,7 @@ double GridPatch::ComputeTotalPotentialEnstrophy(
 		for (int i = m_box.GetAInteriorBegin(); i < m_box.GetAInteriorEnd(); i++) {
 		for (int j = m_box.GetBInteriorBegin(); j < m_box.GetBInteriorEnd(); j++) {
 		for (int k = 0; k < nRElements; k++) {
-			const double dPlanetaryVorticity =
-				2.0 * phys.GetOmega() * sin(m_dataLat(i,j));
+			const double dPlanetaryVorticity = m_dataCoriolisF(i,j);
 
 			const double dAbsoluteVorticity =
 				m_dataVorticity(i,j,k) + dPlanetaryVorticity;
-- 
2.43.0


From 8008dd85aa1099a09b852a1b44b4795727f6b3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:31 +0000
Subject: [PATCH 31/39] fix: compute the Held-Suarez pressures from the
 density-weighted potential temperature

---
 src/atm/HeldSuarezPhysics.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/atm/HeldSuarezPhysics.cpp b/src/atm/HeldSuarezPhysics.cpp
index 2a6728e..14bed8b 100644
--- a/src/atm/HeldSuarezPhysics.cpp
+++ b/src/atm/HeldSuarezPhysics.cpp
@@ -105,6 +105,11 @@ void HeldSuarezPhysics::Perform(
 			}
 		}
 
+		// Potential temperature density at the surface
+		if (pGrid->GetVarLocation(TIx) == DataLocation_Node) {
+			pPatch->InterpolateNodeToREdge(TIx, 0);
+		}
+
 		// Loop over all horizontal nodes in GridPatch
 		for (int i = box.GetAInteriorBegin(); i < box.GetAInteriorEnd(); i++) {
 		for (int j = box.GetBInteriorBegin(); j < box.GetBInteriorEnd(); j++) {
@@ -112,7 +117,7 @@ void HeldSuarezPhysics::Perform(
 			// Calculate surface pressure
 			double dSurfacePressure =
 				phys.PressureFromRhoTheta(
-					dataREdge[RIx][i][j][0] * dataREdge[TIx][i][j][0]);
+					dataREdge[TIx][i][j][0]);
 
 			// Loop over all levels in column
 			for (int k = 0; k < nRElements; k++) {
@@ -120,7 +125,7 @@ void HeldSuarezPhysics::Perform(
 				// Calculate pressure
 				double dPressure =
 					phys.PressureFromRhoTheta(
-						dataNode[RIx][i][j][k] * dataNode[TIx][i][j][k]);
+						dataNode[TIx][i][j][k]);
 
 				double dSigma = dPressure / dSurfacePressure;
 
-- 
2.43.0


From b8a59c6eca0ed588eec88d7e48048c364a3bc89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:45 +0000
Subject: [PATCH 32/39] fix: interpolation of the fourth tracer or user field
 divided it by the column depth like vertical velocity

---
 src/atm/GridPatchCSGLL.cpp        | 5 ++++-
 src/atm/GridPatchCartesianGLL.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/atm/GridPatchCSGLL.cpp b/src/atm/GridPatchCSGLL.cpp
index cdf2075..8aac5d9 100644
--- a/src/atm/GridPatchCSGLL.cpp
+++ b/src/atm/GridPatchCSGLL.cpp
@@ -1647,7 +1647,10 @@ void GridPatchCSGLL::InterpolateData(
 
 				// Rescale vertical velocity
 				const int WIx = 3;
-				if ((c == WIx) && (fConvertToPrimitive)) {
+				if ((eDataType == DataType_State) &&
+					(c == WIx) &&
+					(fConvertToPrimitive)
+				) {
 					if (m_grid.GetVarLocation(WIx) == DataLocation_REdge) {
 						for (int m = 0; m < m_nHorizontalOrder; m++) {
 						for (int n = 0; n < m_nHorizontalOrder; n++) {
diff --git a/src/atm/GridPatchCartesianGLL.cpp b/src/atm/GridPatchCartesianGLL.cpp
index b804c5c..076b976 100644
--- a/src/atm/GridPatchCartesianGLL.cpp
+++ b/src/atm/GridPatchCartesianGLL.cpp
@@ -1915,7 +1915,10 @@ void GridPatchCartesianGLL::InterpolateData(
 
 				// Rescale vertical velocity
 				const int WIx = 3;
-				if ((c == WIx) && (fConvertToPrimitive)) {
+				if ((eDataType == DataType_State) &&
+					(c == WIx) &&
+					(fConvertToPrimitive)
+				) {
 					if (m_grid.GetVarLocation(WIx) == DataLocation_REdge) {
 						for (int m = 0; m < m_nHorizontalOrder; m++) {
 						for (int n = 0; n < m_nHorizontalOrder; n++) {
-- 
2.43.0


From a840903b542f83216585b14bb28fc7a2591f71e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:46 +0000
Subject: [PATCH 33/39] fix: interpolated vertical velocity used the metric
 term of the element corner at every node

---
 src/atm/GridPatchCSGLL.cpp        | 4 ++--
 src/atm/GridPatchCartesianGLL.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/atm/GridPatchCSGLL.cpp b/src/atm/GridPatchCSGLL.cpp
index 8aac5d9..aa76f6e 100644
--- a/src/atm/GridPatchCSGLL.cpp
+++ b/src/atm/GridPatchCSGLL.cpp
@@ -1665,7 +1665,7 @@ void GridPatchCSGLL::InterpolateData(
 								  dAInterpCoeffs[m]
 								* dBInterpCoeffs[n]
 								* pData(iA+m,iB+n,k)
-								/ m_dataDerivRREdge(iA,iB,k,2);
+								/ m_dataDerivRREdge(iA+m,iB+n,k,2);
 #endif
 						}
 						}
@@ -1677,7 +1677,7 @@ void GridPatchCSGLL::InterpolateData(
 								  dAInterpCoeffs[m]
 								* dBInterpCoeffs[n]
 								* pData(iA+m,iB+n,k)
-								/ m_dataDerivRNode(iA,iB,k,2);
+								/ m_dataDerivRNode(iA+m,iB+n,k,2);
 						}
 						}
 					}
diff --git a/src/atm/GridPatchCartesianGLL.cpp b/src/atm/GridPatchCartesianGLL.cpp
index 076b976..a1b2a27 100644
--- a/src/atm/GridPatchCartesianGLL.cpp
+++ b/src/atm/GridPatchCartesianGLL.cpp
@@ -1933,7 +1933,7 @@ void GridPatchCartesianGLL::InterpolateData(
 								  dAInterpCoeffs[m]
 								* dBInterpCoeffs[n]
 								* pData(iA+m,iB+n,k)
-								/ m_dataDerivRREdge(iA,iB,k,2);
+								/ m_dataDerivRREdge(iA+m,iB+n,k,2);
 #endif
 						}
 						}
@@ -1945,7 +1945,7 @@ void GridPatchCartesianGLL::InterpolateData(
 								  dAInterpCoeffs[m]
 								* dBInterpCoeffs[n]
 								* pData(iA+m,iB+n,k)
-								/ m_dataDerivRNode(iA,iB,k,2);
+								/ m_dataDerivRNode(iA+m,iB+n,k,2);
 						}
 						}
 					}
-- 
2.43.0


From e734dfe4bccf00ce1d49a170155ca4d51815aaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:32 +0000
Subject: [PATCH 34/39] fix: first-order interpolation to a first height in the
 top element or last in the bottom one wrote outside the operator

---
 src/atm/LinearColumnOperatorFEM.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/atm/LinearColumnOperatorFEM.cpp b/src/atm/LinearColumnOperatorFEM.cpp
index 641eb7c..47d0bba 100644
--- a/src/atm/LinearColumnOperatorFEM.cpp
+++ b/src/atm/LinearColumnOperatorFEM.cpp
@@ -119,7 +119,9 @@ void LinearColumnInterpFEM::Initialize(
 		} else {
 
 			// For nVerticalOrder = 1, override default O(dx) interpolant
-			if ((nVerticalOrder == 1) && (nFiniteElementsIn > 1) && (l == 0)) {
+			if ((nVerticalOrder == 1) && (l == 0) &&
+				(!fOnREdge) && (a < nFiniteElementsIn-1)
+			) {
 				PolynomialInterp::LagrangianPolynomialCoeffs(
 					nVerticalOrder + 1,
 					&(dREtaNode[a * nVerticalOrder]),
@@ -129,7 +131,9 @@ void LinearColumnInterpFEM::Initialize(
 				m_iBegin[l] =  a    * nVerticalOrder;
 				m_iEnd[l]   = (a+2) * nVerticalOrder;
 
-			} else if ((nVerticalOrder == 1) && (nFiniteElementsIn > 1) && (l == nRElementsOut-1)) {
+			} else if ((nVerticalOrder == 1) && (l == nRElementsOut-1) &&
+				(!fOnREdge) && (a > 0)
+			) {
 				PolynomialInterp::LagrangianPolynomialCoeffs(
 					nVerticalOrder + 1,
 					&(dREtaNode[(a-1) * nVerticalOrder]),
-- 
2.43.0


From 5ed2096078be3bcd645a5d7817310c3f347d6664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:07 +0000
Subject: [PATCH 35/39] fix: points on the edge of a patch of a large box were
 refused as out of range

---
 src/atm/GridPatchCartesianGLL.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/atm/GridPatchCartesianGLL.cpp b/src/atm/GridPatchCartesianGLL.cpp
index a1b2a27..176f7b3 100644
--- a/src/atm/GridPatchCartesianGLL.cpp
+++ b/src/atm/GridPatchCartesianGLL.cpp
@@ -1862,11 +1862,12 @@ void GridPatchCartesianGLL::InterpolateData(
 			}
 
 			// Verify point lies within domain of patch
-			const double Eps = 1.0e-10;
-			if ((dAlpha[i] < m_dAEdge[m_box.GetAInteriorBegin()] - Eps) ||
-				(dAlpha[i] > m_dAEdge[m_box.GetAInteriorEnd()] + Eps) ||
-				(dBeta[i] < m_dBEdge[m_box.GetBInteriorBegin()] - Eps) ||
-				(dBeta[i] > m_dBEdge[m_box.GetBInteriorEnd()] + Eps)
+			const double dEpsA = 1.0e-10 * dDeltaA;
+			const double dEpsB = 1.0e-10 * dDeltaB;
+			if ((dAlpha[i] < m_dAEdge[m_box.GetAInteriorBegin()] - dEpsA) ||
+				(dAlpha[i] > m_dAEdge[m_box.GetAInteriorEnd()] + dEpsA) ||
+				(dBeta[i] < m_dBEdge[m_box.GetBInteriorBegin()] - dEpsB) ||
+				(dBeta[i] > m_dBEdge[m_box.GetBInteriorEnd()] + dEpsB)
 			) {
 				_EXCEPTIONT("Point out of range");
 			}
-- 
2.43.0


From 938587cb5485545bc189b942058b9a4682a5b9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:27 +0000
Subject: [PATCH 36/39] fix: times in output files lost the time of day of the
 start of the run

---
 src/atm/OutputManagerReference.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/atm/OutputManagerReference.cpp b/src/atm/OutputManagerReference.cpp
index 43fa105..d0643bf 100644
--- a/src/atm/OutputManagerReference.cpp
+++ b/src/atm/OutputManagerReference.cpp
@@ -571,7 +571,14 @@ void OutputManagerReference::Output(
 	// Add new time
 	if (nRank == 0) {
 #pragma message "FIX: Doesn't give correct count of days"
-		double dTimeDays = (time - m_grid.GetModel().GetStartTime()) / 86400.0;
+		const Time & timeStart = m_grid.GetModel().GetStartTime();
+
+		// Days are counted from the beginning of the start date
+		double dTimeDays =
+			(time - timeStart
+				+ static_cast<double>(timeStart.GetSecond())
+				+ static_cast<double>(timeStart.GetMicroSecond()) * 1.0e-6)
+			/ 86400.0;
 		m_varTime->set_cur(m_ixOutputTime);
 		m_varTime->put(&dTimeDays, 1);
 	}
-- 
2.43.0


From 22677c433f5e974cf2e200427cc313ac35df499e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:11 +0000
Subject: [PATCH 37/39] fix: a run resumed from a restart file used default
 physical constants instead of those of its test case

---
 src/atm/Model.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/atm/Model.cpp b/src/atm/Model.cpp
index dcc02fd..d3d3375 100644
--- a/src/atm/Model.cpp
+++ b/src/atm/Model.cpp
@@ -236,22 +236,19 @@ void Model::SetTestCase(
 	// Attach the test case
 	m_pTestCase = pTestCase;
 
-	// Evaluate physical constants and data from TestCase
-	if (!m_fGridFromRestartFile) {
+	// Evaluate physical constants
+	m_pTestCase->EvaluatePhysicalConstants(m_phys);
 
-		// Evaluate physical constants
-		m_pTestCase->EvaluatePhysicalConstants(m_phys);
+	// Evaluate data from TestCase
+	if (!m_fGridFromRestartFile) {
 
 		// Initialize the topography and data
 		m_pGrid->EvaluateTestCase(*pTestCase, m_timeStart);
 	}
 	
-	// Evaluate physical constants and data from TestCase if pertubation is needed on restart
+	// Evaluate data from TestCase if pertubation is needed on restart
 	if ((m_fRestartPerturbation) && (m_fGridFromRestartFile)) {
 
-		// Evaluate physical constants
-		m_pTestCase->EvaluatePhysicalConstants(m_phys);
-
 		// Initialize the topography and data
 		m_pGrid->EvaluateTestCase_Perturbation(*pTestCase, m_timeStart);
 	}
-- 
2.43.0


From b535d7fc87f7ddae36af164194d4c83a40e209ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:11 +0000
Subject: [PATCH 38/39] fix: resetting a timer group that has recorded nothing
 is not an error

Model::Go resets the Communicate group, which nothing has touched yet when
the run starts from a restart file: the resumed run stopped before its
first step.
---
 src/base/FunctionTimer.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/base/FunctionTimer.cpp b/src/base/FunctionTimer.cpp
index f8e3884..1fd8f06 100644
--- a/src/base/FunctionTimer.cpp
+++ b/src/base/FunctionTimer.cpp
@@ -160,10 +160,6 @@ void FunctionTimer::ResetGroupTimeRecord(const char *szName) {
 	// Retrieve existing group record
 	if (iter != m_mapGroupData.end()) {
 		m_mapGroupData.erase(iter);
-
-	// Group record does not exist
-	} else {
-		_EXCEPTION1("Group time record %s does not exist.", szName);
 	}
 }
 
-- 
2.43.0


From e50afb52ca88bb5d2813577ea0a6a3d01eb6b432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:33 +0000
Subject: [PATCH 39/39] fix: keep the vertical stretching and the XZ flag when
 resuming a run

The set-up from a restart file set neither, so a run with stretched levels
went on with its levels moved, and a 2D XZ run as a 3D one.
---
 src/atm/TempestInitialize.h | 65 ++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 30 deletions(-)

diff --git a/src/atm/TempestInitialize.h b/src/atm/TempestInitialize.h
index 40f785b..322a1af 100644
--- a/src/atm/TempestInitialize.h
+++ b/src/atm/TempestInitialize.h
@@ -473,6 +473,29 @@ void _TempestSetupOutputManagers(
 
 ///////////////////////////////////////////////////////////////////////////////
 
+void _TempestSetupVerticalStretch(
+	Grid & grid,
+	_TempestCommandLineVariables & vars
+) {
+	// Set the vertical stretching function
+	STLStringHelper::ToLower(vars.strVerticalStretch);
+	if (vars.strVerticalStretch == "uniform") {
+
+	} else if (vars.strVerticalStretch == "cubic") {
+		grid.SetVerticalStretchFunction(
+			new VerticalStretchCubic);
+
+	} else if (vars.strVerticalStretch == "pwlinear") {
+		grid.SetVerticalStretchFunction(
+			new VerticalStretchPiecewiseLinear);
+
+	} else {
+		_EXCEPTIONT("Invalid value for --vstretch");
+	}
+}
+
+///////////////////////////////////////////////////////////////////////////////
+
 void _TempestSetupCubedSphereModel(
 	Model & model,
 	_TempestCommandLineVariables & vars
@@ -547,20 +570,7 @@ void _TempestSetupCubedSphereModel(
 		pGrid->InitializeDataLocal();
 
 		// Set the vertical stretching function
-		STLStringHelper::ToLower(vars.strVerticalStretch);
-		if (vars.strVerticalStretch == "uniform") {
-
-		} else if (vars.strVerticalStretch == "cubic") {
-			pGrid->SetVerticalStretchFunction(
-				new VerticalStretchCubic);
-
-		} else if (vars.strVerticalStretch == "pwlinear") {
-			pGrid->SetVerticalStretchFunction(
-				new VerticalStretchPiecewiseLinear);
-
-		} else {
-			_EXCEPTIONT("Invalid value for --vstretch");
-		}
+		_TempestSetupVerticalStretch(*pGrid, vars);
 
 		// Vertical type
 		STLStringHelper::ToLower(vars.strVerticalDiscretization);
@@ -576,6 +586,9 @@ void _TempestSetupCubedSphereModel(
 
 		pGrid->DefineParameters();
 
+		// The restart file does not hold the vertical stretching function
+		_TempestSetupVerticalStretch(*pGrid, vars);
+
 		model.SetGridFromRestartFile(pGrid, vars.strRestartFile, vars.fRestartPerturbation);
 	}
 
@@ -666,21 +679,7 @@ void _TempestSetupCartesianModel(
 		pGrid->InitializeDataLocal();
 
 		// Set the vertical stretching function
-		STLStringHelper::ToLower(vars.strVerticalStretch);
-		if (vars.strVerticalStretch == "uniform") {
-
-		} else if (vars.strVerticalStretch == "cubic") {
-			pGrid->SetVerticalStretchFunction(
-				new VerticalStretchCubic);
-
-		} else if (vars.strVerticalStretch == "pwlinear") {
-			pGrid->SetVerticalStretchFunction(
-				new VerticalStretchPiecewiseLinear);
-
-		} else {
-			_EXCEPTIONT("Invalid value for --vstretch");
-
-		}
+		_TempestSetupVerticalStretch(*pGrid, vars);
 
 		// Set the Model Grid
 		model.SetGrid(pGrid);
@@ -689,10 +688,16 @@ void _TempestSetupCartesianModel(
 	} else {
 		AnnounceStartBlock("Constructing Grid from restart file");
 
-		Grid * pGrid = new GridCartesianGLL(model);
+		GridCartesianGLL * pGrid = new GridCartesianGLL(model);
 
 		pGrid->DefineParameters();
 
+		// The restart file does not hold the vertical stretching function
+		_TempestSetupVerticalStretch(*pGrid, vars);
+
+		// nor the flag indicating a 2D XZ domain
+		pGrid->m_fCartesianXZ = fCartesianXZ;
+
 		model.SetGridFromRestartFile(pGrid, vars.strRestartFile, vars.fRestartPerturbation);
 	}
 
-- 
2.43.0

