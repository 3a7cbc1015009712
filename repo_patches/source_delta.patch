From 43e89bc05de770fca6eb4e05168bb6f74cdc05bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 01/48] fix: HDF5Output::AddGroup creates groups that do not
 exist yet

---
 Source/IO/Output/HDF5Output.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Source/IO/Output/HDF5Output.cpp b/Source/IO/Output/HDF5Output.cpp
index ef52608..48827b2 100644
--- a/Source/IO/Output/HDF5Output.cpp
+++ b/Source/IO/Output/HDF5Output.cpp
@@ -3,12 +3,12 @@
 #include "HDF5Output.hh"
 
 HDF5Output::HDF5Output():
-m_file(NULL), m_group(NULL)
+m_file(NULL), m_group(NULL), m_subGroup(NULL)
 {
 }
 
 HDF5Output::HDF5Output(std::string fileName, bool append):
-m_fileName(fileName), m_group(NULL)
+m_fileName(fileName), m_group(NULL), m_subGroup(NULL)
 {
     if (append == true)
     {
@@ -21,6 +21,7 @@ m_fileName(fileName), m_group(NULL)
 
 HDF5Output::~HDF5Output()
 {
+    delete m_subGroup;
     delete m_group;
     delete m_file;
 }
@@ -30,12 +31,13 @@ void HDF5Output::AddGroup(std::string groupName)
     if (m_group != NULL)
     {
         delete m_group;
+        m_group = NULL;
     }
-    bool status;
+    herr_t status;
     H5E_BEGIN_TRY {
         status = H5Gget_objinfo(m_file->getId(), groupName.c_str(), 0, NULL);
     } H5E_END_TRY
-    if (status == 0)
+    if (status < 0) // group does not exist yet
     {
         m_group = new H5::Group(m_file->createGroup(groupName.c_str()));
     }
-- 
2.43.0


From 0803feb37e383884b269d2d278833024fd765cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 02/48] fix: histograms bin the requested particle property

---
 Source/IO/Output/Histogram.cpp | 78 +++++-----------------------------
 1 file changed, 11 insertions(+), 67 deletions(-)

diff --git a/Source/IO/Output/Histogram.cpp b/Source/IO/Output/Histogram.cpp
index 572f49f..c59e86e 100644
--- a/Source/IO/Output/Histogram.cpp
+++ b/Source/IO/Output/Histogram.cpp
@@ -26,6 +26,7 @@ void Histogram::Initialise(std::string name, std::string particle , std::string
 	m_type = type;
 	m_time = time;
 	m_nBins = nBins;
+	m_entries = 0;
 	m_binCentres = new double [nBins];
 	m_binValues  = new double [m_nBins];
 	double detla = (maxBin - minBin) / (m_nBins - 1.0);
@@ -44,7 +45,7 @@ void Histogram::AppParticle(Particle* part)
 		exit(1);
 	} else
 	{
-		if (m_type == "Energy" || "energy")
+		if (m_type == "Energy" || m_type == "energy")
 		{
 			m_entries++;
 			double energy = part->GetEnergy();
@@ -53,7 +54,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, energy);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "X" || "x")
+		} else if (m_type == "X" || m_type == "x")
 		{
 			m_entries++;
 			double xPos = part->GetPosition()[0];
@@ -62,7 +63,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, xPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "Y" || "y")
+		} else if (m_type == "Y" || m_type == "y")
 		{
 			m_entries++;
 			double yPos = part->GetPosition()[1];
@@ -71,7 +72,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, yPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "Z" || "z")
+		} else if (m_type == "Z" || m_type == "z")
 		{
 			m_entries++;
 			double zPos =  part->GetPosition()[2];
@@ -80,7 +81,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, zPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "PX" || "px")
+		} else if (m_type == "PX" || m_type == "px")
 		{
 			m_entries++;
 			double xPos = part->GetMomentum()[0];
@@ -89,7 +90,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, xPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "PY" || "py")
+		} else if (m_type == "PY" || m_type == "py")
 		{
 			m_entries++;
 			double yPos = part->GetMomentum()[1];
@@ -98,7 +99,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, yPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "PZ" || "pz")
+		} else if (m_type == "PZ" || m_type == "pz")
 		{
 			m_entries++;
 			double zPos =  part->GetMomentum()[2];
@@ -117,66 +118,9 @@ void Histogram::AppParticle(Particle* part)
 
 void Histogram::Fill(ParticleList* partList)
 {
-	if (m_nBins == 0)
-	{
-		std::cerr << "Error: Histogram has not been initialise!\n";
-		exit(1);
-	} else
+	for (unsigned int i = 0; i < partList->GetNPart(); i++)
 	{
-		if (m_type == "Energy" || "energy")
-		{
-			for (unsigned int i = 0; i < partList->GetNPart(); i++)
-			{
-				m_entries++;
-				double energy =  partList->GetParticle(i)->GetEnergy();
-				if (energy > m_binCentres[0] && energy < m_binCentres[m_nBins-1])
-				{
-					unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, energy);
-					m_binValues[index]++;
-				}
-			}
-			
-		} else if (m_type == "X" || "x")
-		{
-			for (unsigned int i = 0; i < partList->GetNPart(); i++)
-			{
-				m_entries++;
-				double xPos =  partList->GetParticle(i)->GetPosition()[0];
-				if (xPos > m_binCentres[0] && xPos < m_binCentres[m_nBins-1])
-				{
-					unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, xPos);
-					m_binValues[index]++;
-				}
-			}
-		} else if (m_type == "Y" || "y")
-		{
-			for (unsigned int i = 0; i < partList->GetNPart(); i++)
-			{
-				m_entries++;
-				double yPos =  partList->GetParticle(i)->GetPosition()[1];
-				if (yPos > m_binCentres[0] && yPos < m_binCentres[m_nBins-1])
-				{
-					unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, yPos);
-					m_binValues[index]++;
-				}
-			}
-		} else if (m_type == "Z" || "z")
-		{
-			for (unsigned int i = 0; i < partList->GetNPart(); i++)
-			{
-				m_entries++;
-				double zPos =  partList->GetParticle(i)->GetPosition()[2];
-				if (zPos > m_binCentres[0] && zPos < m_binCentres[m_nBins-1])
-				{
-					unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, zPos);
-					m_binValues[index]++;
-				}
-			}
-		} else
-		{
-			std::cerr << "Error: Particle property \"" << m_type << "\" not found\n";
-			exit(1);
-		}
+		AppParticle(partList->GetParticle(i));
 	}
 	Normalise();
 }
@@ -210,7 +154,7 @@ void Histogram::Normalise()
 		{
 			sum += m_binValues[i];
 		}
-		for (unsigned int i = 0; i < m_nBins; i++)
+		for (unsigned int i = 0; i < m_nBins && sum > 0; i++)
 		{
 			m_binValues[i] /= sum;
 		}
-- 
2.43.0


From d07c4f2b9988b94c8675ca1b1f1f526c4f17947c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 03/48] fix: vector deck values honour defaults, commas and
 exponents

---
 Source/IO/Input/INIReader.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Source/IO/Input/INIReader.cpp b/Source/IO/Input/INIReader.cpp
index c2969d6..e870add 100644
--- a/Source/IO/Input/INIReader.cpp
+++ b/Source/IO/Input/INIReader.cpp
@@ -90,7 +90,8 @@ ThreeVector INIReader::GetThreeVector(const std::string& section, const std::str
     {
         bool operator()(const char c) 
         {
-            if (c == '.' || c == '-' || c == ' ' || c == 'e' || std::isdigit(c))
+            if (c == '.' || c == '-' || c == '+' || c == 'e' || c == 'E'
+                || std::isdigit(static_cast<unsigned char>(c)))
             {
                 return false;
             } else
@@ -102,9 +103,9 @@ ThreeVector INIReader::GetThreeVector(const std::string& section, const std::str
 
     string valstr = Get(section, name, "");
     NotNumber nn;
-    std::string::iterator end = std::remove_if(valstr.begin(), valstr.end(), nn);
-    std::string allNumbers(valstr.begin(), end);
-    std::stringstream stream(allNumbers);
+    // Brackets, commas and white space all separate the components
+    std::replace_if(valstr.begin(), valstr.end(), nn, ' ');
+    std::stringstream stream(valstr);
 
     ThreeVector vector;
     int i = 0;
@@ -118,7 +119,7 @@ ThreeVector INIReader::GetThreeVector(const std::string& section, const std::str
         vector[i] = value;
         i++;
     }
-    return vector;
+    return i > 0 ? vector : default_value;
 }
 
 bool INIReader::HasValue(const std::string& section, const std::string& name) const
-- 
2.43.0


From 87e8bc36922208881fc9deba7359ed17c8d8dd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 04/48] fix: ThreeVector::Direction returns a unit vector

---
 Source/Tools/ThreeVector.hh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Source/Tools/ThreeVector.hh b/Source/Tools/ThreeVector.hh
index 0647c27..fd5a6d1 100644
--- a/Source/Tools/ThreeVector.hh
+++ b/Source/Tools/ThreeVector.hh
@@ -88,8 +88,7 @@ public:
 		dir[0] = point[0] - m_data[0];
 		dir[1] = point[1] - m_data[1];
 		dir[2] = point[2] - m_data[2];
-		dir.Norm();
-		return dir;
+		return dir.Norm();
 	}
 
 	// Returns the matrix required to rotate the vecotor onto the second
-- 
2.43.0


From 96ff9783f292064bdac494009f12c1d0c1b7cf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 05/48] fix: RotateToAxis handles every anti-parallel pair

---
 Source/Tools/ThreeVector.hh | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/Source/Tools/ThreeVector.hh b/Source/Tools/ThreeVector.hh
index fd5a6d1..868fb8c 100644
--- a/Source/Tools/ThreeVector.hh
+++ b/Source/Tools/ThreeVector.hh
@@ -98,9 +98,18 @@ public:
 		// Fist we need to check if the vectors are ainti parallel as this method fails
 		if ((this->Norm() + axis.Norm()).Mag2() <= 1e-10)
 		{
-			rotation[0][0] = -1.0;
-			rotation[1][1] =  1.0;
-			rotation[2][2] = -1.0;
+			// Half turn about any axis perpendicular to the vector
+			ThreeVector norm = this->Norm();
+			ThreeVector perp = (std::abs(norm[1]) < 0.9) ?
+				norm.Cross(ThreeVector(0, 1, 0)).Cross(norm).Norm() :
+				norm.Cross(ThreeVector(1, 0, 0)).Cross(norm).Norm();
+			for (unsigned int i = 0; i < 3; i++)
+			{
+				for (unsigned int j = 0; j < 3; j++)
+				{
+					rotation[i][j] = 2.0 * perp[i] * perp[j] - (i == j ? 1.0 : 0.0);
+				}
+			}
 		} else
 		{
 			ThreeVector norm1 = this->Norm();
-- 
2.43.0


From 43d240e6c366f310ea7609535d9b56111fc9beac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 06/48] fix: particle sources point along the requested
 direction

---
 Source/Particles/SourceGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Particles/SourceGenerator.cpp b/Source/Particles/SourceGenerator.cpp
index fda3748..8117632 100644
--- a/Source/Particles/SourceGenerator.cpp
+++ b/Source/Particles/SourceGenerator.cpp
@@ -31,7 +31,7 @@ m_type(type), m_nPart(nPart), m_partCount(0), m_track(track)
         m_energy = MCTools::SampleUniform(energy1, energy2, nPart);
     }
     
-    m_rotaion = m_direction.RotateToAxis(ThreeVector(0, 0, 1));
+    m_rotaion = ThreeVector(0, 0, 1).RotateToAxis(m_direction);
 }
 
 SourceGenerator::~SourceGenerator()
-- 
2.43.0


From 178bdab1cc72ba34806aeabf352fc2f81374d0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 07/48] fix: mono-energetic sources emit every particle at the
 mean energy

---
 Source/Particles/SourceGenerator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Source/Particles/SourceGenerator.cpp b/Source/Particles/SourceGenerator.cpp
index 8117632..7af4fd1 100644
--- a/Source/Particles/SourceGenerator.cpp
+++ b/Source/Particles/SourceGenerator.cpp
@@ -26,6 +26,9 @@ m_type(type), m_nPart(nPart), m_partCount(0), m_track(track)
     } else if(distro == "linear" || distro == "Linear")
     {
         m_energy = MCTools::SampleUniform(energy1, energy2, nPart);
+    } else if(distro == "mono" || distro == "Mono")
+    {
+        m_energy = std::vector<double>(nPart, energy1);
     } else
     {
         m_energy = MCTools::SampleUniform(energy1, energy2, nPart);
-- 
2.43.0


From 8065f344a07cce1886ef914f46302aa839395b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 08/48] fix: each source particle is generated once when
 threads share a source

---
 Source/Particles/SourceGenerator.cpp | 28 ++++++++++++++--------------
 Source/Particles/SourceGenerator.hh  |  3 ++-
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/Source/Particles/SourceGenerator.cpp b/Source/Particles/SourceGenerator.cpp
index 7af4fd1..ef48bd3 100644
--- a/Source/Particles/SourceGenerator.cpp
+++ b/Source/Particles/SourceGenerator.cpp
@@ -43,38 +43,39 @@ SourceGenerator::~SourceGenerator()
 
 ParticleList* SourceGenerator::GenerateList()
 {
-    if (m_partCount == m_nPart)
+    unsigned int index = m_partCount++;
+    if (index >= m_nPart)
     {
         std::cerr << "Error: Particle source depleted." << std::endl;
         std::exit(1);
     }
-    ParticleList* list = new ParticleList(std::to_string(m_partCount));
+    ParticleList* list = new ParticleList(std::to_string(index));
 
-    ThreeVector partPosition = ThreeVector(m_xPos[m_partCount],
-                                           m_yPos[m_partCount],
-                                           m_zPos[m_partCount]);
+    ThreeVector partPosition = ThreeVector(m_xPos[index],
+                                           m_yPos[index],
+                                           m_zPos[index]);
     partPosition = m_rotaion * partPosition + m_position;
 
-    ThreeVector partDirection = ThreeVector(std::sin(m_thetaDir[m_partCount])
-                                          * std::cos(m_phiDir[m_partCount]),
-                                            std::sin(m_thetaDir[m_partCount])
-                                          * std::sin(m_phiDir[m_partCount]),
-                                            std::cos(m_thetaDir[m_partCount]));
+    ThreeVector partDirection = ThreeVector(std::sin(m_thetaDir[index])
+                                          * std::cos(m_phiDir[index]),
+                                            std::sin(m_thetaDir[index])
+                                          * std::sin(m_phiDir[index]),
+                                            std::cos(m_thetaDir[index]));
     partDirection = m_rotaion * partDirection;
 
     if (m_type == "Photon" || m_type == "photon")
     {
-        Photon* part = new Photon(m_energy[m_partCount], partPosition,
+        Photon* part = new Photon(m_energy[index], partPosition,
             partDirection, 1, 0, m_track);
         list->AddParticle(part);
     } else if (m_type == "Electron" || m_type == "electron")
     {
-        Lepton* part = new Lepton(1.0, -1.0, m_energy[m_partCount],
+        Lepton* part = new Lepton(1.0, -1.0, m_energy[index],
             partPosition, partDirection, 1, 0, m_track);
         list->AddParticle(part);
     } else if (m_type == "Positron" || m_type == "positron")
     {
-        Lepton* part = new Lepton(1.0, 1.0, m_energy[m_partCount],
+        Lepton* part = new Lepton(1.0, 1.0, m_energy[index],
             partPosition, partDirection, 1, 0, m_track);
         list->AddParticle(part);
     } else
@@ -83,7 +84,6 @@ ParticleList* SourceGenerator::GenerateList()
         std::cerr << "Exiting!\n";
         exit(-1);
     }
-    m_partCount++;
     return list;
 }
 
diff --git a/Source/Particles/SourceGenerator.hh b/Source/Particles/SourceGenerator.hh
index c10bd3b..82ce8a1 100644
--- a/Source/Particles/SourceGenerator.hh
+++ b/Source/Particles/SourceGenerator.hh
@@ -1,6 +1,7 @@
 #ifndef SOURCEGENERATOR_HH
 #define SOURCEGENERATOR_HH
 
+#include <atomic>
 #include <vector>
 #include "ThreeVector.hh"
 #include "ParticleList.hh"
@@ -36,7 +37,7 @@ private:
     std::vector<double> m_thetaDir;
     std::vector<double> m_phiDir;
     std::vector<double> m_energy;
-    unsigned int m_partCount;
+    std::atomic<unsigned int> m_partCount; // shared by all threads
     ThreeMatrix m_rotaion;
     bool m_track;
 };
-- 
2.43.0


From f29cf5b86a450bbf2bd5e80e4ef0bf79576776d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 09/48] fix: plane wave magnetic field is perpendicular to the
 electric field

---
 Source/Physics/Fields/EMField/PlaneEMField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Physics/Fields/EMField/PlaneEMField.cpp b/Source/Physics/Fields/EMField/PlaneEMField.cpp
index fd088b9..6a68d58 100644
--- a/Source/Physics/Fields/EMField/PlaneEMField.cpp
+++ b/Source/Physics/Fields/EMField/PlaneEMField.cpp
@@ -29,7 +29,7 @@ void PlaneEMField::GetField(double time, const ThreeVector &position,
     eField[2] = 0;
     eField = m_rotationInv * eField;
 
-    bField[0] = E0 * std::sin(m_polAngle);
+    bField[0] = -1.0 * E0 * std::sin(m_polAngle);
     bField[1] = E0 * std::cos(m_polAngle);
     bField[2] = 0;
     bField = m_rotationInv * bField;
-- 
2.43.0


From 64bb02f8470623fc0fbc9fe8af2e4cc8cffe7f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 10/48] fix: gaussian pulse magnetic field is perpendicular to
 the electric field

---
 Source/Physics/Fields/EMField/GaussianEMField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Physics/Fields/EMField/GaussianEMField.cpp b/Source/Physics/Fields/EMField/GaussianEMField.cpp
index 76c638b..c95dff8 100644
--- a/Source/Physics/Fields/EMField/GaussianEMField.cpp
+++ b/Source/Physics/Fields/EMField/GaussianEMField.cpp
@@ -47,7 +47,7 @@ void GaussianEMField::GetField(double time, const ThreeVector &position,
 	eField[2] = 0;
 	eField = m_rotationInv * eField;
 
-	bField[0] = E0 * std::sin(m_polAngle);
+	bField[0] = -1.0 * E0 * std::sin(m_polAngle);
 	bField[1] = E0 * std::cos(m_polAngle);
 	bField[2] = 0;
 	bField = m_rotationInv * bField;
-- 
2.43.0


From a2cdae777e47d0bb6bdf8a6219e5e6968d3327c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 11/48] fix: gaussian pulse focuses at the requested focus
 position

---
 Source/Physics/Fields/EMField/GaussianEMField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Physics/Fields/EMField/GaussianEMField.cpp b/Source/Physics/Fields/EMField/GaussianEMField.cpp
index c95dff8..37f5943 100644
--- a/Source/Physics/Fields/EMField/GaussianEMField.cpp
+++ b/Source/Physics/Fields/EMField/GaussianEMField.cpp
@@ -27,7 +27,7 @@ GaussianEMField::~GaussianEMField()
 void GaussianEMField::GetField(double time, const ThreeVector &position,
 						  ThreeVector &eField, ThreeVector &bField) const
 {
-	ThreeVector position_p = m_rotaion * position;
+	ThreeVector position_p = m_rotaion * (position - m_focusPos);
 	double t0 		 = (m_startPos - m_focusPos).Mag();
 	double r2 		 = position_p[0] * position_p[0] + position_p[1] * position_p[1];
 	double rayleigh  = m_waveNum * m_waist * m_waist / 2.0;
-- 
2.43.0


From 82428f8d82104f7b4d4ed434c5dbaf2ce7dd99d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 12/48] fix: gaussian pulse carrier wave propagates with the
 envelope

---
 Source/Physics/Fields/EMField/GaussianEMField.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Source/Physics/Fields/EMField/GaussianEMField.cpp b/Source/Physics/Fields/EMField/GaussianEMField.cpp
index 37f5943..1a2d0ed 100644
--- a/Source/Physics/Fields/EMField/GaussianEMField.cpp
+++ b/Source/Physics/Fields/EMField/GaussianEMField.cpp
@@ -38,7 +38,8 @@ void GaussianEMField::GetField(double time, const ThreeVector &position,
 										   / (rayleigh * rayleigh));
 	double E0 = m_maxE * (m_waist / beamWaist) 
 				* std::exp(-1.0 * r2 / (beamWaist * beamWaist))
-				* std::cos(position_p[2] * m_waveNum + r2 * m_waveNum / (2.0 * curvature)) 
+				* std::cos((position_p[2] - time + t0) * m_waveNum
+						   + r2 * m_waveNum / (2.0 * curvature)) 
 				* std::exp(-1.0 * (time - t0 - position_p[2]) 
 							* (time - t0 - position_p[2]) / (m_tau * m_tau));
 	
-- 
2.43.0


From 7d9465a25f2101b07765cb95324bdccff7a487b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 13/48] fix: focusing pulse focuses at the requested focus
 position

---
 Source/Physics/Fields/EMField/FocusingField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Physics/Fields/EMField/FocusingField.cpp b/Source/Physics/Fields/EMField/FocusingField.cpp
index c10d862..33e5cec 100644
--- a/Source/Physics/Fields/EMField/FocusingField.cpp
+++ b/Source/Physics/Fields/EMField/FocusingField.cpp
@@ -26,7 +26,7 @@ FocusingField::~FocusingField()
 void FocusingField::GetField(double time, const ThreeVector &position,
     ThreeVector &eField, ThreeVector &bField) const
 {
-    ThreeVector position_p = m_rotaion * position;
+    ThreeVector position_p = m_rotaion * (position - m_focusPos);
     double xe = position_p[0] / m_waist;
     double ye = position_p[1] / m_waist;
     double ze = position_p[2] / m_rayleigh;
-- 
2.43.0


From 2675415f2d56e6e976e1575463c87b061b2302b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 14/48] fix: focusing pulse carrier wave propagates with the
 envelope

---
 Source/Physics/Fields/EMField/FocusingField.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Source/Physics/Fields/EMField/FocusingField.cpp b/Source/Physics/Fields/EMField/FocusingField.cpp
index 33e5cec..9cb775e 100644
--- a/Source/Physics/Fields/EMField/FocusingField.cpp
+++ b/Source/Physics/Fields/EMField/FocusingField.cpp
@@ -35,7 +35,8 @@ void FocusingField::GetField(double time, const ThreeVector &position,
     double curvature = position_p[2] + m_rayleigh * m_rayleigh
         / (position_p[2] + 1e-99);
     double phi_G = std::atan(ze);
-    double phi = m_waveNum * (position_p[2] - r2 / (2.0 * curvature));
+    double phi = m_waveNum * (time - m_t0 - position_p[2]
+        - r2 / (2.0 * curvature));
     double w = m_waist * std::sqrt(1 + ze * ze);
     double E_0 = m_maxE * std::exp(- r2 / (w * w) - (time - m_t0 - position_p[2])
             * (time - m_t0 - position_p[2]) / (m_tau * m_tau));
-- 
2.43.0


From 2824dc8706e450e6aa8d620f3370461e5534054a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 15/48] fix: focusing pulse polarisation rotates the whole beam

---
 .../Physics/Fields/EMField/FocusingField.cpp   | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/Source/Physics/Fields/EMField/FocusingField.cpp b/Source/Physics/Fields/EMField/FocusingField.cpp
index 9cb775e..7d07599 100644
--- a/Source/Physics/Fields/EMField/FocusingField.cpp
+++ b/Source/Physics/Fields/EMField/FocusingField.cpp
@@ -27,6 +27,12 @@ void FocusingField::GetField(double time, const ThreeVector &position,
     ThreeVector &eField, ThreeVector &bField) const
 {
     ThreeVector position_p = m_rotaion * (position - m_focusPos);
+    // The beam is polarised along x in its own frame
+    double cosPol = std::cos(m_polAngle);
+    double sinPol = std::sin(m_polAngle);
+    position_p = ThreeVector(
+        position_p[0] * cosPol + position_p[1] * sinPol,
+        position_p[1] * cosPol - position_p[0] * sinPol, position_p[2]);
     double xe = position_p[0] / m_waist;
     double ye = position_p[1] / m_waist;
     double ze = position_p[2] / m_rayleigh;
@@ -77,14 +83,10 @@ void FocusingField::GetField(double time, const ThreeVector &position,
         * S[5] / 4.0 + rho2 * rho2 *rho2 * rho2 * S[6] / 32.0));
     bField[2] = E_0 * ye * (m_eps * C[1] + m_eps * m_eps * m_eps * (C[2] / 2.0
         + rho2 * C[3] / 2.0 - rho2 * rho2 * C[4] / 4.0));
-    eField[0] = eField[0] * std::cos(m_polAngle)
-        - eField[1] * std::sin(m_polAngle) ;
-    eField[1] = eField[0] * std::sin(m_polAngle)
-        + eField[1] * std::cos(m_polAngle);
+    eField = ThreeVector(eField[0] * cosPol - eField[1] * sinPol,
+        eField[0] * sinPol + eField[1] * cosPol, eField[2]);
     eField = m_rotationInv * eField;
-    bField[0] = bField[0] * std::cos(m_polAngle)
-        - bField[1] * std::sin(m_polAngle) ;
-    bField[1] = bField[0] * std::sin(m_polAngle)
-        + bField[1] * std::cos(m_polAngle);
+    bField = ThreeVector(bField[0] * cosPol - bField[1] * sinPol,
+        bField[0] * sinPol + bField[1] * cosPol, bField[2]);
     bField = m_rotationInv * bField;
 }
\ No newline at end of file
-- 
2.43.0


From df3eb53786589d48b1744a9feae49f2f829b89e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 16/48] fix: upper extrapolation of Interpolate1D is continuous

---
 Source/Tools/Numerics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Tools/Numerics.cpp b/Source/Tools/Numerics.cpp
index 444fac7..47ff248 100644
--- a/Source/Tools/Numerics.cpp
+++ b/Source/Tools/Numerics.cpp
@@ -37,7 +37,7 @@ double Numerics::Interpolate1D(double* samplePoints, double* sampleData, unsigne
 		// value is not within the range so we need to use extrapolation
 		int end = sampleSize - 1;
 		queryData = sampleData[end] + (sampleData[end] - sampleData[end-1]) 
-									  * ((queryPoint - samplePoints[end-1])
+									  * ((queryPoint - samplePoints[end])
 		               				  / (samplePoints[end] - samplePoints[end-1]));
 	} else
 	{
-- 
2.43.0


From 6eaf791ebb8005d587c4d523292917bf103ddada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 17/48] fix: Interpolate1D returns the last sample at the end
 of the axis

---
 Source/Tools/Numerics.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Source/Tools/Numerics.cpp b/Source/Tools/Numerics.cpp
index 47ff248..49c130c 100644
--- a/Source/Tools/Numerics.cpp
+++ b/Source/Tools/Numerics.cpp
@@ -41,7 +41,8 @@ double Numerics::Interpolate1D(double* samplePoints, double* sampleData, unsigne
 		               				  / (samplePoints[end] - samplePoints[end-1]));
 	} else
 	{
-		int lIndex(0), hIndex(1);
+		// The last sample belongs to the last interval
+		int lIndex(sampleSize - 2), hIndex(sampleSize - 1);
 		for (unsigned int i = 0; i < sampleSize; i++)
 		{
 			if (queryPoint < samplePoints[i])
-- 
2.43.0


From 91c14e566d04e9d4dd49807a163099edf74a357c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 18/48] fix: table lookups accept the last interval of the axis

---
 Source/Tools/Numerics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Tools/Numerics.cpp b/Source/Tools/Numerics.cpp
index 49c130c..1bbffb0 100644
--- a/Source/Tools/Numerics.cpp
+++ b/Source/Tools/Numerics.cpp
@@ -101,7 +101,7 @@ void Numerics::ClosestPoints(double* samplePoints, unsigned int sampleSize,
 			break;
 		}
 	}
-	if (lowIndex < sampleSize - 2)
+	if (lowIndex < sampleSize - 1)
 	{
 		frac = (queryPoint - samplePoints[lowIndex]) / (samplePoints[lowIndex+1]
 			- samplePoints[lowIndex]);
-- 
2.43.0


From 8133cfd47b55437d438355d622ed51ed35965c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 19/48] fix: SetSeed seeds the random number generator

---
 Source/Tools/MCTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Tools/MCTools.cpp b/Source/Tools/MCTools.cpp
index e195e70..f648017 100644
--- a/Source/Tools/MCTools.cpp
+++ b/Source/Tools/MCTools.cpp
@@ -4,7 +4,7 @@
 
 void MCTools::SetSeed(int seed)
 {
-    std::srand(seed);
+    generator.seed(seed);
 }
 
 double MCTools::RandDouble(double low, double high)
-- 
2.43.0


From 95473d6a06600a19846c0765383dd306a80de54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 20/48] fix: RandDiscrete can return the first index

---
 Source/Tools/MCTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Tools/MCTools.cpp b/Source/Tools/MCTools.cpp
index f648017..019b8ad 100644
--- a/Source/Tools/MCTools.cpp
+++ b/Source/Tools/MCTools.cpp
@@ -37,7 +37,7 @@ unsigned int MCTools::RandDiscrete(const std::vector<double>& distro)
     }
     double rand = RandDouble(0.0, *(cdf.end() - 1));
     unsigned int sample(0);
-    for (unsigned int i = 1; i < distro.size(); i++)
+    for (unsigned int i = 0; i < distro.size(); i++)
     {
         if (rand < cdf[i])
         {
-- 
2.43.0


From 7d07bc8a87201cde02768b7b3b652873a8255e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 21/48] fix: threads do not share a random number generator

---
 Source/Tools/MCTools.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Tools/MCTools.hh b/Source/Tools/MCTools.hh
index 5453eeb..54b5329 100644
--- a/Source/Tools/MCTools.hh
+++ b/Source/Tools/MCTools.hh
@@ -33,7 +33,7 @@ namespace MCTools
         const Eigen::VectorXd& covar, const Eigen::VectorXd& skew);
 #endif
 
-    static std::random_device rd;
-    static std::mt19937 generator(rd());
+    // One generator per thread
+    static thread_local std::mt19937 generator{std::random_device{}()};
 }
 #endif
\ No newline at end of file
-- 
2.43.0


From 2db9762b1aeacc238a55f08067c769de75501a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 22/48] fix: stochastic emission records the sampled fraction
 of photons

---
 Source/Physics/Processes/StochasticEmission.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Physics/Processes/StochasticEmission.cpp b/Source/Physics/Processes/StochasticEmission.cpp
index f778378..82de4c9 100644
--- a/Source/Physics/Processes/StochasticEmission.cpp
+++ b/Source/Physics/Processes/StochasticEmission.cpp
@@ -41,7 +41,7 @@ void StochasticEmission::Interact(Particle *part, ParticleList *partList) const
         ThreeVector gammaP = gammaE * part->GetDirection();
         part->UpdateTrack(part->GetPosition(), part->GetMomentum() - gammaP);
         // Add new partles to the simulation
-        if (gammaE > m_eMin && m_sampleFrac < MCTools::RandDouble(0, 1))
+        if (gammaE > m_eMin && MCTools::RandDouble(0, 1) < m_sampleFrac)
         {
             Photon* photon = new Photon(gammaE, part->GetPosition(), 
                 part->GetDirection(), part->GetWeight() / m_sampleFrac,
-- 
2.43.0


From 7cfa564b9531b0c8f5c01751304167e713f7ad58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 23/48] fix: classical emission extrapolates from the first
 point of the table

---
 Source/Physics/Processes/ContinuousEmission.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Physics/Processes/ContinuousEmission.cpp b/Source/Physics/Processes/ContinuousEmission.cpp
index 3c5f54d..482cb48 100644
--- a/Source/Physics/Processes/ContinuousEmission.cpp
+++ b/Source/Physics/Processes/ContinuousEmission.cpp
@@ -33,7 +33,7 @@ void ContinuousEmission::Interact(Particle *part, ParticleList *partList) const
     if (eta < 1.0e-12 || m_classical)
     {
         logh = 0.7193;
-        double chiMin = std::exp(m_h_etaAxis[0]);
+        double chiMin = std::pow(10.0, m_h_etaAxis[0]);
         // Extrapolate table for classical (stolen from Chris Arran).
         chi = CalculateChi(chiMin) * (eta / chiMin)  * (eta / chiMin);
     } else
-- 
2.43.0


From 820eda38e5bb9d2b79d422cd8d9115fb5db9ff2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 24/48] fix: pair creation conserves energy and respects the
 threshold

---
 Source/Physics/Processes/NonLinearBreitWheeler.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Source/Physics/Processes/NonLinearBreitWheeler.cpp b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
index 5301af9..8223383 100644
--- a/Source/Physics/Processes/NonLinearBreitWheeler.cpp
+++ b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <fstream>
 
 #include "NonLinearBreitWheeler.hh"
@@ -20,6 +21,8 @@ NonLinearBreitWheeler::~NonLinearBreitWheeler()
 void NonLinearBreitWheeler::Interact(Particle *part, ParticleList *partList) const
 {
     if (part->GetType() != "Photon" || part->IsAlive() == false) return;
+    // Below threshold there is not enough energy for the pair
+    if (part->GetEnergy() <= 2.0) return;
 
     double chi = CalculateChi(part);
     double logt = Numerics::Interpolate1D(m_t_chiAxis, m_t_dataTable,
@@ -32,8 +35,11 @@ void NonLinearBreitWheeler::Interact(Particle *part, ParticleList *partList) con
     if (part->GetOpticalDepth() < 0.0)
     {
         double split = CalculateSplit(chi);
-        double pEnergy = split * part->GetEnergy();
-        double eEnergy = (1.0 - split) * part->GetEnergy();
+        // Share what is left after paying for the rest mass of the pair. The
+        // end of the table is extrapolated so keep the split physical.
+        split = std::min(std::max(split, 1.0e-3), 1.0 - 1.0e-3);
+        double pEnergy = 1.0 + split * (part->GetEnergy() - 2.0);
+        double eEnergy = part->GetEnergy() - pEnergy;
         ThreeVector pMomentum =  std::sqrt(pEnergy * pEnergy - 1.0) * part->GetDirection();
         ThreeVector eMomentum =  std::sqrt(eEnergy * eEnergy - 1.0) * part->GetDirection();
         Lepton* positron = new Lepton(1.0, 1.0, part->GetPosition(), pMomentum,
-- 
2.43.0


From 65057ac3ece8dc54bbd5a94f8aef088338c610e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 25/48] fix: missing QED_TABLES_PATH stops the run instead of
 crashing

---
 Source/Physics/Processes/NonLinearBreitWheeler.cpp | 1 +
 Source/Physics/Processes/PhotonEmission.cpp        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Source/Physics/Processes/NonLinearBreitWheeler.cpp b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
index 8223383..845fa92 100644
--- a/Source/Physics/Processes/NonLinearBreitWheeler.cpp
+++ b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
@@ -84,6 +84,7 @@ void NonLinearBreitWheeler::LoadTables()
         std::cout << "Error: Enviromental variable \"QED_TABLES_PATH\" "; 
         std::cout << "is not set!" << std::endl;
         std::cout <<  "Please set QED_TABLES_PATH to point to tables directory." << std::endl;
+        exit(1);
     }
 
     std::string path(tablePath);
diff --git a/Source/Physics/Processes/PhotonEmission.cpp b/Source/Physics/Processes/PhotonEmission.cpp
index 6d6ee55..f3c9dfe 100644
--- a/Source/Physics/Processes/PhotonEmission.cpp
+++ b/Source/Physics/Processes/PhotonEmission.cpp
@@ -56,6 +56,7 @@ void PhotonEmission::LoadTables()
         std::cout << "is not set!" << std::endl;
         std::cout <<  "Please set QED_TABLES_PATH to point to tables directory."
                   << std::endl;
+        exit(1);
     }
 
     std::string path(tablePath);
-- 
2.43.0


From 01a4da4325dc47d2dd44c4a21eafc2894f26bc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 26/48] fix: track times belong to the recorded positions

---
 Source/Physics/ParticlePushers/ParticlePusher.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Physics/ParticlePushers/ParticlePusher.cpp b/Source/Physics/ParticlePushers/ParticlePusher.cpp
index 8acd850..54c1f3f 100644
--- a/Source/Physics/ParticlePushers/ParticlePusher.cpp
+++ b/Source/Physics/ParticlePushers/ParticlePusher.cpp
@@ -16,8 +16,8 @@ void ParticlePusher::PushParticle(Particle *part)
     {
         ThreeVector positionNew = part->GetPosition() + (m_dt / part->GetMomentum().Mag())
                                  * part->GetMomentum();
-        part->UpdateTrack(positionNew, part->GetMomentum());
         part->UpdateTime(m_dt);
+        part->UpdateTrack(positionNew, part->GetMomentum());
     } else  // Particle is charged
     {
         ThreeVector posK1, posK2, posK3, posK4;
@@ -58,8 +58,8 @@ void ParticlePusher::PushParticle(Particle *part)
                                   * (posK1 + 2.0 * posK2 + 2.0 * posK3 + posK4);
         ThreeVector momentumNew = part->GetMomentum() + (m_dt / 6.0) 
                                   * (momK1 + 2.0 * momK2 + 2.0 * momK3 + momK4);
-        part->UpdateTrack(positionNew, momentumNew);
         part->UpdateTime(m_dt);
+        part->UpdateTrack(positionNew, momentumNew);
     }
 }
 
-- 
2.43.0


From 66b104f5213dfdf05e8773859b17b54cfa47ac7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 27/48] fix: new particles are not pushed ahead of the
 simulation clock

---
 Source/Exec/QEDCASC.cpp      | 4 +++-
 Source/Python/RunManager.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index f05f9bc..5a9c7fb 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -226,7 +226,9 @@ int main(int argc, char* argv[])
                     }
                 }
                 // Push particles and interact
-                for (unsigned int k = 0; k < event->GetNPart(); k++) // Loop particles
+                // Particles created in this step are first pushed in the next
+                unsigned int nPart = event->GetNPart();
+                for (unsigned int k = 0; k < nPart; k++) // Loop particles
                 {
                     pusher->PushParticle(event->GetParticle(k));
                     for (unsigned int proc = 0; proc < processList.size(); proc++) // loop processes
diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index 8be6b80..ac3a298 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -228,7 +228,9 @@ void RunManager::beamOn(int events, int threads)
         while(time < m_timeEnd) //loop time
         {
             // Push particles and interact
-            for (unsigned int j = 0; j < event->GetNPart(); j++) // Loop particles
+            // Particles created in this step are first pushed in the next
+            unsigned int nPart = event->GetNPart();
+            for (unsigned int j = 0; j < nPart; j++) // Loop particles
             {
                 m_pusher->PushParticle(event->GetParticle(j));
                 for (unsigned int proc = 0; proc < m_processList.size(); proc++) // loop processes
-- 
2.43.0


From 921f6f3dee3699ac04d7edc9d93b81ba4d3c8bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 28/48] fix: converted photons are not reported as final
 particles

---
 Source/Exec/QEDCASC.cpp            | 6 ++++--
 Source/IO/Output/OutputManager.cpp | 3 +++
 Source/Python/RunManager.cpp       | 2 ++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index 5a9c7fb..9391505 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -216,7 +216,8 @@ int main(int argc, char* argv[])
                     {
                         for (unsigned int k = 0; k < event->GetNPart(); k++)
                         {
-                            if (histograms[histCount]->GetParticle() == 
+                            if (event->GetParticle(k)->IsAlive() &&
+                                histograms[histCount]->GetParticle() == 
                                 event->GetParticle(k)->GetName())
                             {
                                 histograms[histCount]->AppParticle(event->GetParticle(k));
@@ -243,7 +244,8 @@ int main(int argc, char* argv[])
             {
                 for (unsigned int l = 0; l < event->GetNPart(); l++)
                 {
-                    if (histograms[k]->GetParticle() == 
+                    if (event->GetParticle(l)->IsAlive() &&
+                        histograms[k]->GetParticle() == 
                         event->GetParticle(l)->GetName())
                     {
                         histograms[k]->AppParticle(event->GetParticle(l));
diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index 4534b31..5ecdea6 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -239,6 +239,8 @@ void OutputManager::StoreSource(ParticleList* partList, unsigned int eventID, bo
         m_photonCount[eventID]   = 0;
         for (unsigned int i = 0; i < partList->GetNPart(); i++)
         {
+            // Photons which converted to pairs no longer exist
+            if (partList->GetParticle(i)->IsAlive() == false) continue;
             if (partList->GetParticle(i)->GetName() == "Electron") m_electronCount[eventID]++;
             if (partList->GetParticle(i)->GetName() == "Positron") m_positronCount[eventID]++;
             if (partList->GetParticle(i)->GetName() == "Photon") m_photonCount[eventID]++;
@@ -251,6 +253,7 @@ void OutputManager::StoreSource(ParticleList* partList, unsigned int eventID, bo
         m_photonCount[eventID] = 0;
         for (unsigned int i = 0; i < partList->GetNPart(); i++)
         {
+            if (partList->GetParticle(i)->IsAlive() == false) continue;
             if (partList->GetParticle(i)->GetName() == "Electron")
             {
                 electronData[m_electronCount[eventID]*8]   = eventID;
diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index ac3a298..791c6e5 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -244,6 +244,8 @@ void RunManager::beamOn(int events, int threads)
         // Store final particle properties
         for (long unsigned int j = 0; j < event->GetNPart(); ++j)
         {
+            // Photons which converted to pairs no longer exist
+            if (event->GetParticle(j)->IsAlive() == false) continue;
             if (event->GetParticle(j)->GetCharge() == -1)
             {
                 m_electron_P_X[tid].push_back(event->GetParticle(j)->GetMomentum()[0] 
-- 
2.43.0


From ca72b7000d06f9a687ae13230b07cb6e2b583d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 29/48] fix: short command line arguments are rejected cleanly

---
 Source/Exec/QEDCASC.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index 9391505..6b613ed 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -54,7 +54,8 @@ int main(int argc, char* argv[])
         {
             std::cout << "This is how to use the code\n";
             return 1;
-        } else if (argument.substr(argument.size() - 4) == ".ini")
+        } else if (argument.size() >= 4
+            && argument.substr(argument.size() - 4) == ".ini")
         {
 
         } else
-- 
2.43.0


From dabd54071e8a730ca0383966c5d14ebd3d9bade5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 30/48] fix: histograms sharing a time are all filled at that
 time

---
 Source/Exec/QEDCASC.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index 6b613ed..566486a 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -210,22 +210,19 @@ int main(int argc, char* argv[])
             while(time < inGeneral.timeEnd) // loop time
             {
                 // Check if time for histogram
-                if (histCount < histograms.size())
+                while (histCount < histograms.size()
+                    && time >= histograms[histCount]->GetTime())
                 {
-                 //   std::cout << histCount << " " << histograms[histCount]->GetTime() << std::endl;
-                    if(time >= histograms[histCount]->GetTime())
+                    for (unsigned int k = 0; k < event->GetNPart(); k++)
                     {
-                        for (unsigned int k = 0; k < event->GetNPart(); k++)
+                        if (event->GetParticle(k)->IsAlive() &&
+                            histograms[histCount]->GetParticle() == 
+                            event->GetParticle(k)->GetName())
                         {
-                            if (event->GetParticle(k)->IsAlive() &&
-                                histograms[histCount]->GetParticle() == 
-                                event->GetParticle(k)->GetName())
-                            {
-                                histograms[histCount]->AppParticle(event->GetParticle(k));
-                            }
+                            histograms[histCount]->AppParticle(event->GetParticle(k));
                         }
-                        histCount++;
                     }
+                    histCount++;
                 }
                 // Push particles and interact
                 // Particles created in this step are first pushed in the next
-- 
2.43.0


From 09e047209614152b083a5d6e999327889c9b3c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 31/48] fix: threads do not corrupt shared histograms and
 tracks

---
 Source/Exec/QEDCASC.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index 566486a..7a79019 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -219,6 +219,9 @@ int main(int argc, char* argv[])
                             histograms[histCount]->GetParticle() == 
                             event->GetParticle(k)->GetName())
                         {
+#ifdef USEOPENMP
+                            #pragma omp critical(histogram)
+#endif
                             histograms[histCount]->AppParticle(event->GetParticle(k));
                         }
                     }
@@ -246,6 +249,9 @@ int main(int argc, char* argv[])
                         histograms[k]->GetParticle() == 
                         event->GetParticle(l)->GetName())
                     {
+#ifdef USEOPENMP
+                        #pragma omp critical(histogram)
+#endif
                         histograms[k]->AppParticle(event->GetParticle(l));
                     }
                 }
@@ -253,7 +259,13 @@ int main(int argc, char* argv[])
 
             // Store source data and tracking
             if (inParticles[i].Output == true) out->StoreSource(event, j, false);
-            if (inGeneral.tracking == true) out->StoreTrack(event, j);
+            if (inGeneral.tracking == true)
+            {
+#ifdef USEOPENMP
+                #pragma omp critical(track)
+#endif
+                out->StoreTrack(event, j);
+            }
 
             // Free up the sapce
             generators[i]->FreeSources(event);
-- 
2.43.0


From b67cf96725fd22376dbc4021b3da4f0516a56741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:34 +0000
Subject: [PATCH 32/48] fix: RunManager accepts "classical" physics

---
 Source/Python/RunManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index 791c6e5..728c3ca 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -65,7 +65,7 @@ void RunManager::setField(const std::string& fieldType, double maxField,
 
 void RunManager::setPhysics(const std::string& physics)
 {
-    if (physics == "Classical" || physics == "clasical" ||
+    if (physics == "Classical" || physics == "classical" ||
         physics == "Semiclassical" || physics == "semiclassical" ||
         physics == "Quantum" || physics == "quantum")
     {
-- 
2.43.0


From e5e5f701c14071c87e002542dab593d41a2937ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:34 +0000
Subject: [PATCH 33/48] fix: a refused beamOn leaves the RunManager usable

---
 Source/Python/RunManager.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index 728c3ca..4b5023f 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -29,6 +29,7 @@ RunManager::~RunManager()
     delete m_field;
     delete m_generator;
     delete m_pusher;
+    for (Process* process : m_processList) delete process;
     m_processList.clear();
 }
 
@@ -129,11 +130,6 @@ void RunManager::beamOn(int events, int threads)
     }
 #endif
 
-    delete m_pusher;
-    delete m_generator;
-    delete m_field;
-    m_processList.clear();
-
     // Check for time / field properties
     if (m_timeStep == 0 || !m_fieldSet || !m_physSet || !m_genSet)
     {
@@ -144,6 +140,13 @@ void RunManager::beamOn(int events, int threads)
         return;
     }
 
+    // Free anything left from the previous run
+    delete m_pusher;
+    delete m_generator;
+    delete m_field;
+    for (Process* process : m_processList) delete process;
+    m_processList.clear();
+
     // Set the field
     if (m_fieldType == "gaussian" || m_fieldType == "Gaussian")
     {
-- 
2.43.0


From bd0b8a17d9a863cad19f007aef5b30032498c39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:34 +0000
Subject: [PATCH 34/48] fix: track gamma factors are not scaled by the time
 unit

---
 Source/IO/Output/OutputManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index 5ecdea6..11fe6b4 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -484,7 +484,7 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
             }
             for (unsigned int j = 0; j < m_gammaTrack[i].size(); j++)
             {
-                gammaBuff[j] = m_gammaTrack[i][j] * time;
+                gammaBuff[j] = m_gammaTrack[i][j];
             }
             m_outputFile->AddArray2D(posBuff, m_positionTrack[i].size(), 3, eventName + "/Position");
             m_outputFile->AddArray2D(momBuff, m_momentumTrack[i].size(), 3, eventName + "/Momentum");
-- 
2.43.0


From a65223e3d144033c76c0dbf91d9486bbe5517840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:34 +0000
Subject: [PATCH 35/48] fix: particle lists and tracks can be written to the
 same file

---
 Source/IO/Output/OutputManager.cpp | 4 ++--
 Source/IO/Output/OutputManager.hh  | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index 11fe6b4..50ca0fe 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -434,10 +434,10 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
     // Output tracking info
     if (outTrack == true)
     {
-        if (m_partListBool == false)
+        if (m_partTrackBool == false)
         {
             m_outputFile->AddGroup("Particles/ParticleTrack");
-            m_partListBool = true;
+            m_partTrackBool = true;
         }
 
         // Get the units system
diff --git a/Source/IO/Output/OutputManager.hh b/Source/IO/Output/OutputManager.hh
index d4b8e75..ff1c718 100644
--- a/Source/IO/Output/OutputManager.hh
+++ b/Source/IO/Output/OutputManager.hh
@@ -69,6 +69,7 @@ private:
     // Boolians to avoid adding the same group twice
     bool m_singlePartBool = false;
     bool m_partListBool = false;
+    bool m_partTrackBool = false;
     bool m_particleSourceBool = false;
 
     // Structures holding data for source outputs
-- 
2.43.0


From 99364bebb3b212ee699461c49c4bece40ecd3c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 36/48] fix: tracks of several sources can be written to one
 file

---
 Source/IO/Output/OutputManager.cpp | 6 +++---
 Source/IO/Output/OutputManager.hh  | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index 50ca0fe..276b2c1 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -454,8 +454,8 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
             time = m_units->RefTime();
         }
 
-        // Loop through all the tracks
-        for (unsigned int i = 0; i < m_idTrack.size(); i++)
+        // Loop through all the tracks which are not in the file yet
+        for (unsigned int i = m_nTracksOut; i < m_idTrack.size(); i++)
         {
             std::string eventName = "Particles/ParticleTrack/Event" + std::to_string(i);
             m_outputFile->AddGroup(eventName);
@@ -496,7 +496,7 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
             delete[] timeBuff;
             delete[] gammaBuff;
         }
-
+        m_nTracksOut = m_idTrack.size();
     }
 }
 
diff --git a/Source/IO/Output/OutputManager.hh b/Source/IO/Output/OutputManager.hh
index ff1c718..ed73c47 100644
--- a/Source/IO/Output/OutputManager.hh
+++ b/Source/IO/Output/OutputManager.hh
@@ -82,6 +82,7 @@ private:
     std::vector<unsigned int> m_photonCount;
 
     // structures holding data for tracking output
+    unsigned int m_nTracksOut = 0; // tracks already in the file
     std::vector<unsigned int> m_idTrack;
     std::vector<std::vector<ThreeVector>> m_positionTrack;
     std::vector<std::vector<ThreeVector>> m_momentumTrack;
-- 
2.43.0


From c9209f8d9fe92e7ee80191d034fb4c47ee4ab097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 37/48] fix: input decks without a positive time step are
 refused

---
 Source/IO/Input/FileParser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Source/IO/Input/FileParser.cpp b/Source/IO/Input/FileParser.cpp
index c4ce767..1b0938a 100644
--- a/Source/IO/Input/FileParser.cpp
+++ b/Source/IO/Input/FileParser.cpp
@@ -66,6 +66,12 @@ void FileParser::ReadGeneral()
     m_units = new UnitsSystem(m_general.units);
     m_general.timeStep = m_reader->GetReal("General", "time_step", 0) / m_units->RefTime();
     m_general.timeEnd = m_reader->GetReal("General", "time_end", 0) / m_units->RefTime();
+    if (!(m_general.timeStep > 0))
+    {
+        std::cerr << "Input error: \"time_step\" must be a positive time\n";
+        std::cerr << "Exiting!\n";
+        exit(1);
+    }
     m_general.fileName = m_reader->GetString("General", "file_name", "out.h5");
     m_general.tracking = m_reader->GetBoolean("General", "tracking", false);
 
-- 
2.43.0


From 3c678ca23d52134dd1fc68b214f6a1cc1f1dc00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 38/48] fix: photon from a slow emitter keeps the emitter's
 direction

---
 Source/Physics/Processes/StochasticEmission.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Source/Physics/Processes/StochasticEmission.cpp b/Source/Physics/Processes/StochasticEmission.cpp
index 82de4c9..0f28bfe 100644
--- a/Source/Physics/Processes/StochasticEmission.cpp
+++ b/Source/Physics/Processes/StochasticEmission.cpp
@@ -38,13 +38,15 @@ void StochasticEmission::Interact(Particle *part, ParticleList *partList) const
     {
         double chi = CalculateChi(eta);
         double gammaE = 2.0 * chi * part->GetGamma() / eta;
-        ThreeVector gammaP = gammaE * part->GetDirection();
+        // Keep the direction, the recoil can turn a slow particle around
+        ThreeVector direction = part->GetDirection();
+        ThreeVector gammaP = gammaE * direction;
         part->UpdateTrack(part->GetPosition(), part->GetMomentum() - gammaP);
         // Add new partles to the simulation
         if (gammaE > m_eMin && MCTools::RandDouble(0, 1) < m_sampleFrac)
         {
             Photon* photon = new Photon(gammaE, part->GetPosition(), 
-                part->GetDirection(), part->GetWeight() / m_sampleFrac,
+                direction, part->GetWeight() / m_sampleFrac,
                 part->GetTime(), m_track);
             partList->AddParticle(photon);
         }
-- 
2.43.0


From a553ded3d2021abfe9c8b868376871d8c3042344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:15 +0000
Subject: [PATCH 39/48] fix: photons can still convert after passing a region
 without field

---
 Source/Physics/Processes/NonLinearBreitWheeler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Source/Physics/Processes/NonLinearBreitWheeler.cpp b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
index 845fa92..d99035e 100644
--- a/Source/Physics/Processes/NonLinearBreitWheeler.cpp
+++ b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
@@ -25,6 +25,8 @@ void NonLinearBreitWheeler::Interact(Particle *part, ParticleList *partList) con
     if (part->GetEnergy() <= 2.0) return;
 
     double chi = CalculateChi(part);
+    // No transverse field, log10(0) would spoil the optical depth for good
+    if (chi <= 0.0) return;
     double logt = Numerics::Interpolate1D(m_t_chiAxis, m_t_dataTable,
         m_t_length, std::log10(chi));
     double deltaOD = m_dt * UnitsSystem::alpha * chi * std::pow(10.0, logt)
-- 
2.43.0


From e7b521a21752ac2b2ad5ec3ac19e431fe8973bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:25 +0000
Subject: [PATCH 40/48] fix: long tracks of particles and lists fit in memory

---
 Source/IO/Output/OutputManager.cpp | 68 +++++++++++++++---------------
 1 file changed, 33 insertions(+), 35 deletions(-)

diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index 276b2c1..175a0d8 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -85,14 +85,17 @@ void OutputManager::SingleParticle(Particle* part, std::string name)
             time = m_units->RefTime();
         }
 
-        double posBuff[3*part->GetPosHist().size()];
-        double momBuff[3*part->GetMomHist().size()];
-        double timeBuff[part->GetTimeHist().size()];
-        double gammaBuff[part->GetGammaHist().size()];      
-        for (unsigned int i = 0; i < part->GetPosHist().size(); i++)
+        // Copy the history once, long tracks do not fit on the stack
+        const std::vector<ThreeVector> posHist = part->GetPosHist();
+        const std::vector<ThreeVector> momHist = part->GetMomHist();
+        std::vector<double> timeBuff = part->GetTimeHist();
+        std::vector<double> gammaBuff = part->GetGammaHist();
+        std::vector<double> posBuff(3*posHist.size());
+        std::vector<double> momBuff(3*momHist.size());
+        for (unsigned int i = 0; i < posHist.size(); i++)
         {
-            ThreeVector pos = part->GetPosHist()[i];
-            ThreeVector mom = part->GetMomHist()[i];
+            ThreeVector pos = posHist[i];
+            ThreeVector mom = momHist[i];
             posBuff[3*i]   = pos[0] * length;
             posBuff[3*i+1] = pos[1] * length;
             posBuff[3*i+2] = pos[2] * length;
@@ -100,20 +103,16 @@ void OutputManager::SingleParticle(Particle* part, std::string name)
             momBuff[3*i+1] = mom[1] * momentum;
             momBuff[3*i+2] = mom[2] * momentum;
         }
-        for (unsigned int i = 0; i < part->GetTimeHist().size(); i++)
+        for (unsigned int i = 0; i < timeBuff.size(); i++)
         {
-            timeBuff[i] = part->GetTimeHist()[i] * time;
-        }
-        for (unsigned int i = 0; i < part->GetGammaHist().size(); i++)
-        {
-            gammaBuff[i] = part->GetGammaHist()[i];
+            timeBuff[i] *= time;
         }
         std::string groupName = "Particles/Single/" + name;
         m_outputFile->AddGroup(groupName);
-        m_outputFile->AddArray2D(posBuff, part->GetPosHist().size(), 3, groupName + "/Position");
-        m_outputFile->AddArray2D(momBuff, part->GetMomHist().size(), 3, groupName + "/Momentum");
-        m_outputFile->AddArray1D(timeBuff, part->GetTimeHist().size(), groupName + "/Time");
-        m_outputFile->AddArray1D(gammaBuff, part->GetGammaHist().size(), groupName + "/Gamma");
+        m_outputFile->AddArray2D(posBuff.data(), posHist.size(), 3, groupName + "/Position");
+        m_outputFile->AddArray2D(momBuff.data(), momHist.size(), 3, groupName + "/Momentum");
+        m_outputFile->AddArray1D(timeBuff.data(), timeBuff.size(), groupName + "/Time");
+        m_outputFile->AddArray1D(gammaBuff.data(), gammaBuff.size(), groupName + "/Gamma");
     }
 }
 
@@ -149,38 +148,37 @@ void OutputManager::ListTracks(ParticleList* partList, std::string name)
                 time = m_units->RefTime();
             }
 
-            double posBuff[3*part->GetPosHist().size()];
-            double momBuff[3*part->GetMomHist().size()];
-            double timeBuff[part->GetTimeHist().size()];
-            double gammaBuff[part->GetGammaHist().size()];      
-            for (unsigned int i = 0; i < part->GetPosHist().size(); i++)
+            // Copy the history once, long tracks do not fit on the stack
+            const std::vector<ThreeVector> posHist = part->GetPosHist();
+            const std::vector<ThreeVector> momHist = part->GetMomHist();
+            std::vector<double> timeBuff = part->GetTimeHist();
+            std::vector<double> gammaBuff = part->GetGammaHist();
+            std::vector<double> posBuff(3*posHist.size());
+            std::vector<double> momBuff(3*momHist.size());
+            for (unsigned int i = 0; i < posHist.size(); i++)
             {
                 for (unsigned int j = 0; j < 3; j++)
                 {
-                    posBuff[3*i+j] = part->GetPosHist()[i][j] * length;
+                    posBuff[3*i+j] = posHist[i][j] * length;
                 }
             }
-            for (unsigned int i = 0; i < part->GetMomHist().size(); i++)
+            for (unsigned int i = 0; i < momHist.size(); i++)
             {
                 for (unsigned int j = 0; j < 3; j++)
                 {
-                    momBuff[3*i+j] = part->GetMomHist()[i][j] * momentum;
+                    momBuff[3*i+j] = momHist[i][j] * momentum;
                 }
             }
-            for (unsigned int i = 0; i < part->GetTimeHist().size(); i++)
-            {
-                timeBuff[i] = part->GetTimeHist()[i] * time;
-            }
-            for (unsigned int i = 0; i < part->GetGammaHist().size(); i++)
+            for (unsigned int i = 0; i < timeBuff.size(); i++)
             {
-                gammaBuff[i] = part->GetGammaHist()[i];
+                timeBuff[i] *= time;
             }
             std::string groupName = "Particles/ParticleList/" + name + "/" + std::to_string(i);
             m_outputFile->AddGroup(groupName);
-            m_outputFile->AddArray2D(posBuff, part->GetPosHist().size(), 3, groupName + "/Position");
-            m_outputFile->AddArray2D(momBuff, part->GetMomHist().size(), 3, groupName + "/Momentum");
-            m_outputFile->AddArray1D(timeBuff, part->GetTimeHist().size(), groupName + "/Time");
-            m_outputFile->AddArray1D(gammaBuff, part->GetGammaHist().size(), groupName + "/Gamma");
+            m_outputFile->AddArray2D(posBuff.data(), posHist.size(), 3, groupName + "/Position");
+            m_outputFile->AddArray2D(momBuff.data(), momHist.size(), 3, groupName + "/Momentum");
+            m_outputFile->AddArray1D(timeBuff.data(), timeBuff.size(), groupName + "/Time");
+            m_outputFile->AddArray1D(gammaBuff.data(), gammaBuff.size(), groupName + "/Gamma");
         }
     }
 }
-- 
2.43.0


From 832fffe167dfe927267dceb25c7146f76dbc6e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:26 +0000
Subject: [PATCH 41/48] fix: input summary lists every parameter

---
 Source/IO/Input/FileParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Source/IO/Input/FileParser.cpp b/Source/IO/Input/FileParser.cpp
index 1b0938a..6dd50a1 100644
--- a/Source/IO/Input/FileParser.cpp
+++ b/Source/IO/Input/FileParser.cpp
@@ -125,6 +125,7 @@ void FileParser::ReadField()
             {
                 m_checkFile << "Field input parameters \n";
                 m_checkFile << "Field type  = " << m_field.Type << "\n";
+                m_checkFile << "Max E       = " << m_field.MaxE << "\n";
                 m_checkFile << "Wavelength  = " << m_field.Wavelength << "\n";
                 m_checkFile << "Direction   = [" << m_field.Direction[0] << " "
                             << m_field.Direction[1] << " " << m_field.Direction[2] << "]\n";
@@ -150,6 +151,7 @@ void FileParser::ReadField()
                 m_checkFile << "Duration    = "   << m_field.Duration << "\n";
                 m_checkFile << "Waist       = "   << m_field.Waist << "\n";             
                 m_checkFile << "Wavelength  = "   << m_field.Wavelength << "\n";
+                m_checkFile << "Polerisation = "  << m_field.Polerisation << "\n";
                 m_checkFile << "Start       = ["  << m_field.Start[0] << " "
                             << m_field.Start[1]   << " " << m_field.Start[2] << "]\n";
                 m_checkFile << "Focus       = ["  << m_field.Focus[0] << " "
@@ -175,6 +177,7 @@ void FileParser::ReadField()
                 m_checkFile << "Duration    = "   << m_field.Duration << "\n";
                 m_checkFile << "Waist       = "   << m_field.Waist << "\n";             
                 m_checkFile << "Wavelength  = "   << m_field.Wavelength << "\n";
+                m_checkFile << "Polerisation = "  << m_field.Polerisation << "\n";
                 m_checkFile << "Start       = ["  << m_field.Start[0] << " "
                             << m_field.Start[1]   << " " << m_field.Start[2] << "]\n";
                 m_checkFile << "Focus       = ["  << m_field.Focus[0] << " "
@@ -235,6 +238,7 @@ void FileParser::ReadParticles()
                 m_checkFile << "Name       = " << source.Name << "\n";              
                 m_checkFile << "Number     = " << source.Number << "\n";
                 m_checkFile << "Type       = " << source.Type << "\n";
+                m_checkFile << "Distribution = " << source.Distro << "\n";
                 m_checkFile << "Energy1    = " << source.Energy1 << "\n";
                 m_checkFile << "Energy2    = " << source.Energy2 << "\n";
                 m_checkFile << "Radius     = " << source.Radius << "\n";
@@ -284,6 +288,7 @@ void FileParser::ReadHistograms()
                 m_checkFile << "Histogram " << i-1 <<  "\n";
                 m_checkFile << "Name     = " << histogram.Name << "\n";
                 m_checkFile << "Particle = " << histogram.Particle << "\n";
+                m_checkFile << "Type     = " << histogram.Type << "\n";
                 m_checkFile << "Time     = " << histogram.Time << "\n";
                 m_checkFile << "Bins     = " << histogram.Bins << "\n";
                 m_checkFile << "Min Bin  = " << histogram.MinBin << "\n";
-- 
2.43.0


From ed58dd03950f47fc4bcbbe3f040f9c6da7d9040f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:35 +0000
Subject: [PATCH 42/48] fix: every source with output is written to the file

---
 Source/IO/Output/OutputManager.cpp | 36 +++++++++++++++---------------
 Source/IO/Output/OutputManager.hh  |  2 +-
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index 175a0d8..00364e5 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -331,11 +331,11 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
 {
     if (outSource == true)
     {
-        if (m_particleSourceBool == false)
-        {
-            m_outputFile->AddGroup("Particles/ParticleSource");
-            m_particleSourceBool = true;
-        }
+        // Every source has a group of its own
+        std::string sourceName = "Particles/ParticleSource";
+        if (m_nSourcesOut > 0) sourceName += std::to_string(m_nSourcesOut + 1);
+        m_outputFile->AddGroup(sourceName);
+        m_nSourcesOut++;
         double* primeBuff = new double [m_primaryEvent.size()*8];
         for (unsigned int i = 0; i < m_primaryEvent.size(); i++)
         {
@@ -349,7 +349,7 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
             primeBuff[i*8+7] = m_primaryEvent[i][7];
         }
         m_outputFile->AddArray2D(primeBuff, m_primaryEvent.size(), 8,
-                "Particles/ParticleSource/Primary");
+                sourceName + "/Primary");
 
         unsigned int totalElectrons = 0;
         unsigned int totalPositrons = 0;
@@ -411,17 +411,17 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
         if (totalElectrons > 0)
         {
             m_outputFile->AddArray2D(electronBuff, totalElectrons, 8,
-                    "Particles/ParticleSource/Electrons");
+                    sourceName + "/Electrons");
         }
         if (totalPositrons > 0)
         {
             m_outputFile->AddArray2D(positronBuff, totalPositrons, 8,
-                    "Particles/ParticleSource/Positrons");
+                    sourceName + "/Positrons");
         }
         if (totalPhotons > 0)
         {
             m_outputFile->AddArray2D(photonBuff, totalPhotons, 8,
-                    "Particles/ParticleSource/Photons");
+                    sourceName + "/Photons");
         }
         delete [] primeBuff;
         delete [] electronBuff;
@@ -563,11 +563,11 @@ void OutputManager::OutputEventsMPI(bool outSource, bool outTrack)
         if (id == 0)
         {
             // We are master
-            if (m_particleSourceBool == false)
-            {
-                m_outputFile->AddGroup("Particles/ParticleSource");
-                m_particleSourceBool = true;
-            }
+            // Every source has a group of its own
+            std::string sourceName = "Particles/ParticleSource";
+            if (m_nSourcesOut > 0) sourceName += std::to_string(m_nSourcesOut + 1);
+            m_outputFile->AddGroup(sourceName);
+            m_nSourcesOut++;
 
             // First start with primary sources
             int arraysize[nProc];
@@ -619,7 +619,7 @@ void OutputManager::OutputEventsMPI(bool outSource, bool outTrack)
                 delete[] procBuff;
             }
             m_outputFile->AddArray2D(primeBuff, totalSize / 8, 8,
-                "Particles/ParticleSource/Primary");
+                sourceName + "/Primary");
             delete[] primeBuff;
 
             // Now we move on the end events
@@ -762,17 +762,17 @@ void OutputManager::OutputEventsMPI(bool outSource, bool outTrack)
             if (totalelectronSize > 0)
             {
                 m_outputFile->AddArray2D(electronBuff, totalelectronSize / 8, 8,
-                        "Particles/ParticleSource/Electrons");
+                        sourceName + "/Electrons");
             }
             if (totalpositronSize > 0)
             {
                 m_outputFile->AddArray2D(positronBuff, totalpositronSize / 8, 8,
-                        "Particles/ParticleSource/Positrons");
+                        sourceName + "/Positrons");
             }
             if (totalphotonSize > 0)
             {
                 m_outputFile->AddArray2D(photonBuff, totalphotonSize / 8, 8,
-                        "Particles/ParticleSource/Photons");
+                        sourceName + "/Photons");
             }
             delete [] electronBuff;
             delete [] positronBuff;
diff --git a/Source/IO/Output/OutputManager.hh b/Source/IO/Output/OutputManager.hh
index ed73c47..9b6366a 100644
--- a/Source/IO/Output/OutputManager.hh
+++ b/Source/IO/Output/OutputManager.hh
@@ -70,9 +70,9 @@ private:
     bool m_singlePartBool = false;
     bool m_partListBool = false;
     bool m_partTrackBool = false;
-    bool m_particleSourceBool = false;
 
     // Structures holding data for source outputs
+    unsigned int m_nSourcesOut = 0; // sources already in the file
     std::vector<double*> m_primaryEvent;
     std::vector<double*> m_electronEvent;
     std::vector<double*> m_positronEvent;
-- 
2.43.0


From aa18550f8ffdfea304543ee3a6e09fa830c699cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:59 +0000
Subject: [PATCH 43/48] fix: tracking covers the particles of created pairs

---
 Source/Exec/QEDCASC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index 7a79019..322bd02 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -145,7 +145,7 @@ int main(int argc, char* argv[])
     if (inPhysics.PairProduction == true)
     {
         NonLinearBreitWheeler* breitWheeler = new NonLinearBreitWheeler(field, 
-            inGeneral.timeStep, false);
+            inGeneral.timeStep, inGeneral.tracking);
         processList.push_back(breitWheeler);
     }
 
-- 
2.43.0


From e3b2e44ff652b284a4ad254968176108d858bdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:59 +0000
Subject: [PATCH 44/48] fix: histograms are filled in order of their time

---
 Source/Exec/QEDCASC.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index 322bd02..4468c9e 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -1,4 +1,5 @@
 #include <string>
+#include <algorithm>
 
 #include "EMField.hh"
 #include "GaussianEMField.hh"
@@ -170,6 +171,9 @@ int main(int argc, char* argv[])
             inHistogram[i].Particle, inHistogram[i].Type, inHistogram[i].Time,
             inHistogram[i].MinBin, inHistogram[i].MaxBin, inHistogram[i].Bins);
     }
+    // The event loop takes them in order of time, whatever their order in the file
+    std::stable_sort(histograms.begin(), histograms.end(),
+        [](Histogram* a, Histogram* b) { return a->GetTime() < b->GetTime(); });
 
     // Set up output manager
     OutputManager* out = new OutputManager(inGeneral.fileName);
-- 
2.43.0


From 02d828e86b70a0a0c4c42027fc5c62cd3a387533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 45/48] fix: a run with fewer than one thread is refused

---
 Source/Python/RunManager.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index 4b5023f..a1c4b5e 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -130,6 +130,13 @@ void RunManager::beamOn(int events, int threads)
     }
 #endif
 
+    if (threads < 1)
+    {
+        std::cerr << "Error in beamOn(): At least one thread is required."
+                  << std::endl;
+        return;
+    }
+
     // Check for time / field properties
     if (m_timeStep == 0 || !m_fieldSet || !m_physSet || !m_genSet)
     {
-- 
2.43.0


From 7fe8df70de5b35adbca0988e6c2cc4cda8abb8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 46/48] fix: an unknown particle type is refused instead of
 ending the interpreter

---
 Source/Python/RunManager.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index a1c4b5e..a575838 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -86,8 +86,18 @@ void RunManager::setGenerator(const std::string& particleType,
     double radius, double duration, double divergence, 
     const ThreeVector& position, const ThreeVector& direction)
 {
-    m_genSet = true;
-    m_particleType = particleType;
+    if (particleType == "Photon" || particleType == "photon" ||
+        particleType == "Electron" || particleType == "electron" ||
+        particleType == "Positron" || particleType == "positron")
+    {
+        m_genSet = true;
+        m_particleType = particleType;
+    } else
+    {
+        m_genSet = false;
+        std::cerr << "Error: Unknown particle type." << std::endl;
+        return;
+    }
     m_energyDist = energyDist;
     m_energyParam1 = energyParam1 / m_units->RefEnergy(); 
     m_energyParam2 = energyParam2 / m_units->RefEnergy();
-- 
2.43.0


From 5cfcad991c9192879134b97184b1eaba5b9351ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:29 +0000
Subject: [PATCH 47/48] fix: a run with a negative number of events is refused

---
 Source/Python/RunManager.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index a575838..6ab56ed 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -147,6 +147,13 @@ void RunManager::beamOn(int events, int threads)
         return;
     }
 
+    if (events < 0)
+    {
+        std::cerr << "Error in beamOn(): The number of events is negative."
+                  << std::endl;
+        return;
+    }
+
     // Check for time / field properties
     if (m_timeStep == 0 || !m_fieldSet || !m_physSet || !m_genSet)
     {
-- 
2.43.0


From ede0e2fa1bd6e3dd16b40ca8b85f14eddf321682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:12 +0000
Subject: [PATCH 48/48] fix: the length of very small and very large vectors
 neither underflows nor overflows

---
 Source/Physics/ParticlePushers/ParticlePusher.cpp | 4 ++--
 Source/Tools/ThreeVector.hh                       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Source/Physics/ParticlePushers/ParticlePusher.cpp b/Source/Physics/ParticlePushers/ParticlePusher.cpp
index 54c1f3f..d40bb06 100644
--- a/Source/Physics/ParticlePushers/ParticlePusher.cpp
+++ b/Source/Physics/ParticlePushers/ParticlePusher.cpp
@@ -14,8 +14,8 @@ void ParticlePusher::PushParticle(Particle *part)
     if (part->IsAlive() == false) return;
     if (part->GetMass() == 0)
     {
-        ThreeVector positionNew = part->GetPosition() + (m_dt / part->GetMomentum().Mag())
-                                 * part->GetMomentum();
+        ThreeVector positionNew = part->GetPosition()
+                                 + m_dt * part->GetMomentum().Norm();
         part->UpdateTime(m_dt);
         part->UpdateTrack(positionNew, part->GetMomentum());
     } else  // Particle is charged
diff --git a/Source/Tools/ThreeVector.hh b/Source/Tools/ThreeVector.hh
index 868fb8c..fe1d778 100644
--- a/Source/Tools/ThreeVector.hh
+++ b/Source/Tools/ThreeVector.hh
@@ -72,7 +72,7 @@ public:
 	// Returns the magnitude
 	double Mag() const
 	{
-		return std::sqrt(Dot(*this));
+		return std::hypot(std::hypot(m_data[0], m_data[1]), m_data[2]);
 	}
 
 	// Returns the magnitude squared
-- 
2.43.0

