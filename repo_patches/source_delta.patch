From 9cdd882c3e27c334474949cf813eb0e3c6e1828f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:42 +0000
Subject: [PATCH 01/40] fix: bounds-check reads from Buffer

---
 src/utils/Buffer.cpp | 50 ++++++++++++++++++++++++++------------------
 src/utils/Buffer.h   |  2 ++
 2 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/utils/Buffer.cpp b/src/utils/Buffer.cpp
index 0e3ed2a..635cd39 100644
--- a/src/utils/Buffer.cpp
+++ b/src/utils/Buffer.cpp
@@ -18,6 +18,14 @@ namespace utils {
 	Buffer::Buffer() : _buffer(0), _position{0} {
 	}
 
+	uint8_t Buffer::nextByte() {
+		// Reading past the end must not touch foreign memory: it yields zeros
+		// and leaves the buffer invalid (see isValid())
+		uint8_t byte = _position < _buffer.size() ? _buffer[_position] : 0;
+		++_position;
+		return byte;
+	}
+
 	Buffer &Buffer::operator<<(uint8_t val) {
 		_buffer.push_back(val);
 		return *this;
@@ -25,7 +33,7 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(uint8_t &val) {
-		val = _buffer[_position++];
+		val = nextByte();
 		return *this;
 
 	}
@@ -37,7 +45,7 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(int8_t &val) {
-		val = static_cast<uint8_t>(_buffer[_position++]);
+		val = static_cast<uint8_t>(nextByte());
 		return *this;
 	}
 
@@ -48,8 +56,8 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(uint16_t &val) {
-		val = static_cast<uint16_t>(_buffer[_position++]);
-		val += static_cast<uint16_t>(_buffer[_position++] << 8);
+		val = static_cast<uint16_t>(nextByte());
+		val += static_cast<uint16_t>(nextByte() << 8);
 		return *this;
 	}
 
@@ -71,10 +79,10 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(uint32_t &val) {
-		val = static_cast<uint32_t>(_buffer[_position++]);
-		val += static_cast<uint32_t>(_buffer[_position++] << 8);
-		val += static_cast<uint32_t>(_buffer[_position++] << 16);
-		val += static_cast<uint32_t>(_buffer[_position++] << 24);
+		val = static_cast<uint32_t>(nextByte());
+		val += static_cast<uint32_t>(nextByte() << 8);
+		val += static_cast<uint32_t>(nextByte() << 16);
+		val += static_cast<uint32_t>(nextByte() << 24);
 
 		return *this;
 	}
@@ -101,14 +109,14 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(uint64_t &val) {
-		val = static_cast<uint64_t>(_buffer[_position++]);
-		val += static_cast<uint64_t>(_buffer[_position++]) << 8;
-		val += static_cast<uint64_t>(_buffer[_position++]) << 16;
-		val += static_cast<uint64_t>(_buffer[_position++]) << 24;
-		val += static_cast<uint64_t>(_buffer[_position++]) << 32;
-		val += static_cast<uint64_t>(_buffer[_position++]) << 40;
-		val += static_cast<uint64_t>(_buffer[_position++]) << 48;
-		val += static_cast<uint64_t>(_buffer[_position++]) << 56;
+		val = static_cast<uint64_t>(nextByte());
+		val += static_cast<uint64_t>(nextByte()) << 8;
+		val += static_cast<uint64_t>(nextByte()) << 16;
+		val += static_cast<uint64_t>(nextByte()) << 24;
+		val += static_cast<uint64_t>(nextByte()) << 32;
+		val += static_cast<uint64_t>(nextByte()) << 40;
+		val += static_cast<uint64_t>(nextByte()) << 48;
+		val += static_cast<uint64_t>(nextByte()) << 56;
 
 		return *this;
 	}
@@ -143,8 +151,10 @@ Buffer &Buffer::operator<<(float val) {
 	}
 
 	Buffer &Buffer::operator>>(std::vector<uint8_t> &val) {
-		std::copy(_buffer.begin() + _position, _buffer.begin() + _position + val.size(), val.begin());
-		_position += val.size();
+		for (auto& v : val) {
+			v = nextByte();
+		}
+
 		return *this;
 	}
 
@@ -159,8 +169,8 @@ Buffer &Buffer::operator<<(float val) {
 
 	Buffer &Buffer::operator>>(std::vector<uint16_t> &val) {
 		for (auto& v : val) {
-			v = static_cast<int16_t>(_buffer[_position++]);
-			v += static_cast<int16_t>(_buffer[_position++] << 8);
+			v = static_cast<int16_t>(nextByte());
+			v += static_cast<int16_t>(nextByte() << 8);
 		}
 
 		return *this;
diff --git a/src/utils/Buffer.h b/src/utils/Buffer.h
index 32c1409..f340d7c 100644
--- a/src/utils/Buffer.h
+++ b/src/utils/Buffer.h
@@ -114,6 +114,8 @@ namespace utils {
 		bool isValid() const { return _position <= _buffer.size(); }
 		bool empty() const  { return  _position >= _buffer.size(); }
 	private:
+		uint8_t nextByte();
+
 		std::vector<uint8_t> _buffer;
 		size_t _position;
 	};
-- 
2.43.0


From 4f2995be30f4bbccc1a41bc683f5051e44f824e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:37 +0000
Subject: [PATCH 02/40] fix: skip malformed replies in discovery instead of
 failing or inventing devices

---
 src/DiscoveryManager.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/DiscoveryManager.cpp b/src/DiscoveryManager.cpp
index f8a118a..ea695d0 100644
--- a/src/DiscoveryManager.cpp
+++ b/src/DiscoveryManager.cpp
@@ -19,6 +19,7 @@ namespace eipScanner {
 	using eip::EncapsStatusCodes;
 	using eip::EncapsCommands;
 	using eip::CommonPacket;
+	using eip::CommonPacketItemIds;
 
 	using sockets::EndPoint;
 	using sockets::UDPSocket;
@@ -45,10 +46,25 @@ namespace eipScanner {
 				const size_t EIP_MAX_PACKET_SIZE = 504;
 				auto data = socket->Receive(EIP_MAX_PACKET_SIZE);
 
+				// A device that answers garbage must not hide the other ones
+				if (data.size() < EncapsPacket::HEADER_SIZE) {
+					Logger(LogLevel::WARNING) << "Ignore too short discovery response";
+					continue;
+				}
+
 				CommonPacket commonPacket;
-				commonPacket.expand(std::vector<uint8_t>(data.begin()+EncapsPacket::HEADER_SIZE, data.end()));
+				try {
+					commonPacket.expand(std::vector<uint8_t>(data.begin()+EncapsPacket::HEADER_SIZE, data.end()));
+				} catch (std::runtime_error& er) {
+					Logger(LogLevel::WARNING) << "Ignore malformed discovery response: " << er.what();
+					continue;
+				}
 
 				for (int i=0; i < commonPacket.getItems().size(); ++i) {
+					if (commonPacket.getItems()[i].getTypeId() != CommonPacketItemIds::LIST_IDENTITY) {
+						continue;
+					}
+
 					Buffer buffer(commonPacket.getItems()[i].getData());
 					CipUint ignore;
 					sockets::EndPoint socketAddr("", 0);
@@ -65,6 +81,11 @@ namespace eipScanner {
 						   >> revision >> status
 						   >> serialNumber >> productName;
 
+					if (!buffer.isValid()) {
+						Logger(LogLevel::WARNING) << "Ignore malformed identity item in discovery response";
+						continue;
+					}
+
 					IdentityObject identityObject(i);
 					identityObject.setVendorId(vendorId);
 					identityObject.setDeviceType(deviceType);
-- 
2.43.0


From bfef1374cd86c302f1f085a52bd6e26e69558b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:39 +0000
Subject: [PATCH 03/40] fix: report a TCP connection closed by the peer instead
 of returning zeros

---
 src/sockets/TCPSocket.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index bbceaac..4c01885 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -163,6 +163,7 @@ namespace eipScanner {
 			if (size != count) {
 				Logger(LogLevel::WARNING) << "Received from " << _remoteEndPoint.toString()
 										  << " " << count << " of " << size;
+				throw std::system_error(EIPSCANNER_SOCKET_ERROR(ECONNRESET), BaseSocket::getErrorCategory());
 			}
 
 			return recvBuffer;
-- 
2.43.0


From 45a9a1d1fb7ddda00ce83bb999a2ac5f3569bc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:42 +0000
Subject: [PATCH 04/40] fix: detect failed and partial TCP sends

---
 src/SessionInfo.cpp       |  8 ++++++--
 src/sockets/TCPSocket.cpp | 14 +++++++++++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/SessionInfo.cpp b/src/SessionInfo.cpp
index cbfb179..a7d0e65 100644
--- a/src/SessionInfo.cpp
+++ b/src/SessionInfo.cpp
@@ -40,8 +40,12 @@ namespace eipScanner {
 
 	SessionInfo::~SessionInfo() {
 		EncapsPacket packet = EncapsPacketFactory().createUnRegisterSessionPacket(_sessionHandle);
-		_socket.Send(packet.pack());
-		Logger(LogLevel::INFO) << "Unregistered session " << _sessionHandle;
+		try {
+			_socket.Send(packet.pack());
+			Logger(LogLevel::INFO) << "Unregistered session " << _sessionHandle;
+		} catch (std::system_error& er) {
+			Logger(LogLevel::WARNING) << "Failed to unregister session " << _sessionHandle << ": " << er.what();
+		}
 	}
 
 	EncapsPacket SessionInfo::sendAndReceive(const EncapsPacket& packet) const {
diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index 4c01885..1b392da 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -132,9 +132,17 @@ namespace eipScanner {
 			// Do not generate SIGPIPE when calling send() on closed socket
 			flags |= MSG_NOSIGNAL;
 #endif
-			int count = send(_sockedFd, (char*)data.data(), data.size(), flags);
-			if (count < data.size()) {
-				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+			size_t count = 0;
+			while (count < data.size()) {
+				auto len = send(_sockedFd, (char*)(data.data() + count), data.size() - count, flags);
+				if (len < 0) {
+					if (BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR)) {
+						continue;
+					}
+					throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+				}
+
+				count += len;
 			}
 		}
 
-- 
2.43.0


From 7c511d8c3411c6a23150e4f5eaa0eeafa7d6202c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 05/40] fix: return only the received bytes from UDP sockets

---
 src/sockets/UDPSocket.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sockets/UDPSocket.cpp b/src/sockets/UDPSocket.cpp
index 04f1ddb..52858aa 100644
--- a/src/sockets/UDPSocket.cpp
+++ b/src/sockets/UDPSocket.cpp
@@ -75,6 +75,7 @@ namespace sockets {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 		}
 
+		recvBuffer.resize(len);
 		return recvBuffer;
 	}
 
@@ -89,6 +90,7 @@ namespace sockets {
 		}
 
 		endPoint = EndPoint(addr);
+		recvBuffer.resize(len);
 		return recvBuffer;
 	}
 }
-- 
2.43.0


From b348b3846e152e6b10a1ee6f0bdcc8a69dc34c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:05 +0000
Subject: [PATCH 06/40] fix: keep all 32 bits of connection ids

---
 src/ConnectionManager.cpp | 2 +-
 src/ConnectionManager.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index a4c76a2..a9106be 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -58,7 +58,7 @@ namespace eipScanner {
 		NetworkConnectionParametersBuilder t2oNCP(connectionParameters.t2oNetworkConnectionParams, isLarge);
 
 		if (o2tNCP.getConnectionType() == NetworkConnectionParametersBuilder::MULTICAST) {
-			static cip::CipUint idCount = _incarnationId << 16;
+			static cip::CipUdint idCount = _incarnationId << 16;
 			connectionParameters.o2tNetworkConnectionId = ++idCount;
 		}
 
diff --git a/src/ConnectionManager.h b/src/ConnectionManager.h
index a317067..ab54392 100644
--- a/src/ConnectionManager.h
+++ b/src/ConnectionManager.h
@@ -75,7 +75,7 @@ namespace eipScanner {
 		bool hasOpenConnections() const;
 	private:
 		MessageRouter::SPtr _messageRouter;
-		std::map<cip::CipUint, IOConnection::SPtr> _connectionMap;
+		std::map<cip::CipUdint, IOConnection::SPtr> _connectionMap;
 		std::map<sockets::EndPoint, std::shared_ptr<sockets::UDPBoundSocket>> _socketMap;
 
 		sockets::UDPBoundSocket::SPtr  findOrCreateSocket(const sockets::EndPoint& endPoint);
-- 
2.43.0


From 209d4d9e4b21e4823876483ca9e10300d77f605d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:30 +0000
Subject: [PATCH 07/40] fix: compute the connection timeout without overflow

---
 src/IOConnection.cpp | 2 +-
 src/IOConnection.h   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 5571496..5af22ed 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -98,7 +98,7 @@ namespace eipScanner {
 
 		auto periodInMicroS = sinceLastHandle.count() * 1000;
 		_connectionTimeoutCount += periodInMicroS;
-		if (_connectionTimeoutCount > _connectionTimeoutMultiplier * _t2oAPI) {
+		if (_connectionTimeoutCount > static_cast<cip::CipUlint>(_connectionTimeoutMultiplier) * _t2oAPI) {
 			Logger(LogLevel::WARNING) << "Connection SeriaNumber=" << _serialNumber << " is closed by timeout";
 			_closeHandle();
 			return false;
diff --git a/src/IOConnection.h b/src/IOConnection.h
index 9058d89..feaa04e 100644
--- a/src/IOConnection.h
+++ b/src/IOConnection.h
@@ -83,8 +83,8 @@ namespace eipScanner {
 		cip::CipUdint _o2tTimer;
 		cip::CipUdint _t2o_timer;
 
-		cip::CipUsint _connectionTimeoutMultiplier;
-		cip::CipUdint _connectionTimeoutCount;
+		cip::CipUint _connectionTimeoutMultiplier;
+		cip::CipUlint _connectionTimeoutCount;
 
 		cip::CipUdint _o2tSequenceNumber;
 		cip::CipUdint _t2oSequenceNumber;
-- 
2.43.0


From 86943c336a9e039dafe1b36822ec88aedf191021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:34 +0000
Subject: [PATCH 08/40] fix: do not lose time between short handleConnections
 calls

---
 src/IOConnection.cpp | 6 +++---
 src/IOConnection.h   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 5af22ed..c3e9e67 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -94,9 +94,9 @@ namespace eipScanner {
 	bool IOConnection::notifyTick() {
 		auto now = std::chrono::steady_clock::now();
 		auto sinceLastHandle =
-			std::chrono::duration_cast<std::chrono::milliseconds>(now - _lastHandleTime);
+			std::chrono::duration_cast<std::chrono::microseconds>(now - _lastHandleTime);
 
-		auto periodInMicroS = sinceLastHandle.count() * 1000;
+		auto periodInMicroS = sinceLastHandle.count();
 		_connectionTimeoutCount += periodInMicroS;
 		if (_connectionTimeoutCount > static_cast<cip::CipUlint>(_connectionTimeoutMultiplier) * _t2oAPI) {
 			Logger(LogLevel::WARNING) << "Connection SeriaNumber=" << _serialNumber << " is closed by timeout";
@@ -104,7 +104,7 @@ namespace eipScanner {
 			return false;
 		}
 
-		_lastHandleTime = now;
+		_lastHandleTime += sinceLastHandle;
 
 		_o2tTimer += periodInMicroS;
 		if (_o2tTimer >= _o2tAPI) {
diff --git a/src/IOConnection.h b/src/IOConnection.h
index feaa04e..c83fba9 100644
--- a/src/IOConnection.h
+++ b/src/IOConnection.h
@@ -80,7 +80,7 @@ namespace eipScanner {
 		bool _o2tFixedSize;
 		bool _t2oFixedSize;
 
-		cip::CipUdint _o2tTimer;
+		cip::CipUlint _o2tTimer;
 		cip::CipUdint _t2o_timer;
 
 		cip::CipUint _connectionTimeoutMultiplier;
-- 
2.43.0


From d057a8919a5ba672f7d4a3c4624294f85c81ac3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 09/40] fix: measure the connection timeout from the last
 received data

---
 src/IOConnection.cpp | 11 ++++++-----
 src/IOConnection.h   |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index c3e9e67..ec7e078 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -29,7 +29,6 @@ namespace eipScanner {
 			, _o2tTimer{0}
 			, _t2o_timer{0}
 			, _connectionTimeoutMultiplier{0}
-			, _connectionTimeoutCount{0}
 			, _o2tSequenceNumber{0}
 			, _t2oSequenceNumber{0}
 			, _serialNumber{0}
@@ -44,7 +43,8 @@ namespace eipScanner {
 			, _receiveDataHandle([](auto, auto, auto) {})
 			, _closeHandle([]() {})
 			, _sendDataHandle([](auto) {})
-			, _lastHandleTime(std::chrono::steady_clock::now()) {
+			, _lastHandleTime(std::chrono::steady_clock::now())
+			, _lastReceiveTime(_lastHandleTime) {
 	}
 
 	IOConnection::~IOConnection() = default;
@@ -85,7 +85,7 @@ namespace eipScanner {
 				<< " has fixed size " << _t2oDataSize << " bytes but " << ioData.size()
 				<< " bytes were received. Ignore this data.";
 		} else {
-			_connectionTimeoutCount = 0;
+			_lastReceiveTime = std::chrono::steady_clock::now();
 			_receiveDataHandle(runtimeHeader, sequenceValueCount,
 							   ioData);
 		}
@@ -97,8 +97,9 @@ namespace eipScanner {
 			std::chrono::duration_cast<std::chrono::microseconds>(now - _lastHandleTime);
 
 		auto periodInMicroS = sinceLastHandle.count();
-		_connectionTimeoutCount += periodInMicroS;
-		if (_connectionTimeoutCount > static_cast<cip::CipUlint>(_connectionTimeoutMultiplier) * _t2oAPI) {
+		auto sinceLastReceive =
+			std::chrono::duration_cast<std::chrono::microseconds>(now - _lastReceiveTime);
+		if (sinceLastReceive.count() > static_cast<int64_t>(_connectionTimeoutMultiplier) * _t2oAPI) {
 			Logger(LogLevel::WARNING) << "Connection SeriaNumber=" << _serialNumber << " is closed by timeout";
 			_closeHandle();
 			return false;
diff --git a/src/IOConnection.h b/src/IOConnection.h
index c83fba9..13b0932 100644
--- a/src/IOConnection.h
+++ b/src/IOConnection.h
@@ -84,7 +84,6 @@ namespace eipScanner {
 		cip::CipUdint _t2o_timer;
 
 		cip::CipUint _connectionTimeoutMultiplier;
-		cip::CipUlint _connectionTimeoutCount;
 
 		cip::CipUdint _o2tSequenceNumber;
 		cip::CipUdint _t2oSequenceNumber;
@@ -107,6 +106,7 @@ namespace eipScanner {
 		SendDataHandle _sendDataHandle;
 
 		std::chrono::steady_clock::time_point _lastHandleTime;
+		std::chrono::steady_clock::time_point _lastReceiveTime;
 	};
 }
 
-- 
2.43.0


From d2c87e6774e7ca4d196f0e3980bfcd85d809e7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:35 +0000
Subject: [PATCH 10/40] fix: handleConnections without any connection opened

---
 src/sockets/BaseSocket.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sockets/BaseSocket.cpp b/src/sockets/BaseSocket.cpp
index efb71db..3b850c0 100644
--- a/src/sockets/BaseSocket.cpp
+++ b/src/sockets/BaseSocket.cpp
@@ -118,9 +118,11 @@ namespace sockets {
 	}
 
 	void BaseSocket::select(std::vector<BaseSocket::SPtr> sockets, std::chrono::milliseconds timeout) {
-		BaseSocket::SPtr socketWithMaxFd = *std::max_element(sockets.begin(), sockets.end(), [](auto sock1, auto sock2) {
+		auto socketWithMaxFd = std::max_element(sockets.begin(), sockets.end(), [](auto sock1, auto sock2) {
 			return sock1->getSocketFd() < sock2->getSocketFd();
 		});
+		// Without sockets there is nothing to receive, but we still have to wait
+		int maxFd = socketWithMaxFd != sockets.end() ? (*socketWithMaxFd)->getSocketFd() : -1;
 
 		auto startTime = std::chrono::steady_clock::now();
 		auto stopTime = startTime + timeout;
@@ -134,7 +136,7 @@ namespace sockets {
 				FD_SET(sock->getSocketFd(), &recvSet);
 			}
 
-			ready = ::select(socketWithMaxFd->getSocketFd() + 1, &recvSet, NULL, NULL, &tv);
+			ready = ::select(maxFd + 1, &recvSet, NULL, NULL, &tv);
 			if (ready < 0) {
 				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 			}
-- 
2.43.0


From 5cdd220bf519fba6049257c638fed77984ee2d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:40 +0000
Subject: [PATCH 11/40] fix: ignore malformed IO datagrams

---
 src/ConnectionManager.cpp | 26 ++++++++++++++++++++------
 src/IOConnection.cpp      |  6 ++++++
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index a9106be..84be147 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -239,17 +239,31 @@ namespace eipScanner {
 			newSocket->setBeginReceiveHandler([this](BaseSocket& sock) {
 				auto recvData = sock.Receive(8192);
 				CommonPacket commonPacket;
-				commonPacket.expand(recvData);
+				cip::CipUdint connectionId = 0;
+				std::vector<uint8_t> connectedData;
+
+				// A malformed datagram from the network must not disturb the open connections
+				try {
+					commonPacket.expand(recvData);
+
+					// TODO: Check TypeIDs and sequence of the packages
+					Buffer buffer(commonPacket.getItems().at(0).getData());
+					buffer >> connectionId;
+					if (!buffer.isValid()) {
+						throw std::runtime_error("Wrong address item");
+					}
+
+					connectedData = commonPacket.getItems().at(1).getData();
+				} catch (std::exception& er) {
+					Logger(LogLevel::WARNING) << "Ignore malformed IO datagram: " << er.what();
+					return;
+				}
 
-				// TODO: Check TypeIDs and sequence of the packages
-				Buffer buffer(commonPacket.getItems().at(0).getData());
-				cip::CipUdint connectionId;
-				buffer >> connectionId;
 				Logger(LogLevel::DEBUG) << "Received data from connection T2O_ID=" << connectionId;
 
 				auto io = _connectionMap.find(connectionId);
 				if (io != _connectionMap.end()) {
-					io->second->notifyReceiveData(commonPacket.getItems().at(1).getData());
+					io->second->notifyReceiveData(connectedData);
 				} else {
 					Logger(LogLevel::ERROR) << "Received data from unknown connection T2O_ID=" << connectionId;
 				}
diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index ec7e078..ebb94f4 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -79,6 +79,12 @@ namespace eipScanner {
 			buffer >> sequenceValueCount;
 		}
 
+		if (!buffer.isValid()) {
+			Logger(LogLevel::WARNING) << "Connection T2O_ID=" << _t2oNetworkConnectionId
+				<< " received only " << data.size() << " bytes. Ignore this data.";
+			return;
+		}
+
 		std::vector<uint8_t> ioData(data.begin() + buffer.pos(), data.end());
 		if (_t2oFixedSize && ioData.size() != _t2oDataSize) {
 			Logger(LogLevel::WARNING) << "Connection T2O_ID=" << _t2oNetworkConnectionId
-- 
2.43.0


From f5673cf831ec397963686252749a473d96473791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:43 +0000
Subject: [PATCH 12/40] fix: read the sequence count before the real time
 header

---
 src/IOConnection.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index ebb94f4..8709d07 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -70,15 +70,15 @@ namespace eipScanner {
 		cip::CipUdint runtimeHeader = 0;
 		cip::CipUint sequenceValueCount = 0;
 
-		if (_t2oRealTimeFormat) {
-			buffer >> runtimeHeader;
-		}
-
 		if ((_transportTypeTrigger & NetworkConnectionParams::CLASS1) > 0
 			|| (_transportTypeTrigger & NetworkConnectionParams::CLASS3) > 0) {
 			buffer >> sequenceValueCount;
 		}
 
+		if (_t2oRealTimeFormat) {
+			buffer >> runtimeHeader;
+		}
+
 		if (!buffer.isValid()) {
 			Logger(LogLevel::WARNING) << "Connection T2O_ID=" << _t2oNetworkConnectionId
 				<< " received only " << data.size() << " bytes. Ignore this data.";
-- 
2.43.0


From 984e1af1d5955abdcd13d8e7091633345712bc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:12 +0000
Subject: [PATCH 13/40] fix: forwardClose of a connection already closed by
 timeout

---
 src/ConnectionManager.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index 84be147..f430872 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -2,7 +2,6 @@
 // Created by Aleksey Timin on 11/18/19.
 //
 #include <algorithm>
-#include <cassert>
 #include <cstdlib>
 #include <random>
 
@@ -173,7 +172,10 @@ namespace eipScanner {
 	}
 
 	void ConnectionManager::forwardClose(const SessionInfoIf::SPtr& si, const IOConnection::WPtr& ioConnection) {
-		if (auto ptr = ioConnection.lock()) {
+		auto ptr = ioConnection.lock();
+		auto io = ptr ? _connectionMap.find(ptr->_t2oNetworkConnectionId) : _connectionMap.end();
+		// The user may still hold a connection which is already closed by timeout
+		if (io != _connectionMap.end() && io->second == ptr) {
 			ForwardCloseRequest request;
 
 			request.setConnectionPath(ptr->_connectionPath);
@@ -196,9 +198,7 @@ namespace eipScanner {
 					<< ". But the connection is removed from ConnectionManager anyway";
 			}
 
-			auto rc = _connectionMap.erase(ptr->_t2oNetworkConnectionId);
-			(void) rc;
-			assert(rc);
+			_connectionMap.erase(io);
 		} else {
 			Logger(LogLevel::WARNING) << "Attempt to close an already closed connection";
 		}
-- 
2.43.0


From fe1a27c32e7f34c7477ba9245c57dc4dc58bcf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 14/40] fix: let IO listeners open and close connections

---
 src/ConnectionManager.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index f430872..ad0fad3 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -214,15 +214,20 @@ namespace eipScanner {
 
 		BaseSocket::select(sockets, timeout);
 
-		std::vector<cip::CipUdint> connectionsToClose;
-		for (auto& entry : _connectionMap) {
-			if (!entry.second->notifyTick()) {
-				connectionsToClose.push_back(entry.first);
+		// The listeners may open and close connections while we are handling them
+		auto connections = _connectionMap;
+		for (auto& entry : connections) {
+			auto io = _connectionMap.find(entry.first);
+			if (io == _connectionMap.end() || io->second != entry.second) {
+				continue;
 			}
-		}
 
-		for (auto& id : connectionsToClose) {
-			_connectionMap.erase(id);
+			if (!entry.second->notifyTick()) {
+				io = _connectionMap.find(entry.first);
+				if (io != _connectionMap.end() && io->second == entry.second) {
+					_connectionMap.erase(io);
+				}
+			}
 		}
 	}
 
@@ -263,7 +268,8 @@ namespace eipScanner {
 
 				auto io = _connectionMap.find(connectionId);
 				if (io != _connectionMap.end()) {
-					io->second->notifyReceiveData(connectedData);
+					auto ioConnection = io->second;
+					ioConnection->notifyReceiveData(connectedData);
 				} else {
 					Logger(LogLevel::ERROR) << "Received data from unknown connection T2O_ID=" << connectionId;
 				}
-- 
2.43.0


From b4ff11ec62596a92bf466ef615873c81bef3a3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:30 +0000
Subject: [PATCH 15/40] fix: end a failed file upload and report it once

---
 .../FileObjectUploadInProgressState.cpp       | 21 +++++++++++++++++++
 .../FileObjectUploadInProgressState.h         |  2 ++
 2 files changed, 23 insertions(+)

diff --git a/src/fileObject/FileObjectUploadInProgressState.cpp b/src/fileObject/FileObjectUploadInProgressState.cpp
index 0054a26..ea8f5c2 100644
--- a/src/fileObject/FileObjectUploadInProgressState.cpp
+++ b/src/fileObject/FileObjectUploadInProgressState.cpp
@@ -51,6 +51,10 @@ namespace fileObject {
 					"Receive transfer packet type=" + std::to_string(
 							static_cast<cip::CipUsint>(transferPacketType)));
 
+			if (!buffer.isValid()) {
+				return failTransfer("Not enough data in the response");
+			}
+
 			if (transferNumber != _transferNumber) {
 				logWithStateName(LogLevel::ERROR, "Wrong transfer number");
 				_handler(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
@@ -61,6 +65,9 @@ namespace fileObject {
 				case TransferPacketTypeCodes::FIRST: {
 					std::vector<uint8_t> fileData(_transferSize);
 					buffer >> fileData;
+					if (!buffer.isValid()) {
+						return failTransfer("Not enough data in the transfer packet");
+					}
 
 					_fileContent.insert(_fileContent.end(), fileData.begin(), fileData.end());
 					break;
@@ -68,12 +75,19 @@ namespace fileObject {
 				case TransferPacketTypeCodes::MIDDLE: {
 					std::vector<uint8_t> fileData(_transferSize);
 					buffer >> fileData;
+					if (!buffer.isValid()) {
+						return failTransfer("Not enough data in the transfer packet");
+					}
 
 					_fileContent.insert(_fileContent.end(), fileData.begin(), fileData.end());
 					break;
 				}
 				case TransferPacketTypeCodes::LAST:
 				case TransferPacketTypeCodes::FIRST_AND_LAST: {
+					if (response.getData().size() < 4) {
+						return failTransfer("Not enough data in the last transfer packet");
+					}
+
 					std::vector<uint8_t> fileData(response.getData().size() - 4);	//TODO: Check CRC
 					buffer >> fileData;
 
@@ -94,9 +108,16 @@ namespace fileObject {
 		} else {
 			logGeneralAndAdditionalStatus(response);
 			_handler(response.getGeneralStatusCode(), std::vector<uint8_t>());
+			return false;
 		}
 
 		return true;
 	}
+
+	bool FileObjectUploadInProgressState::failTransfer(const std::string& message) {
+		logWithStateName(LogLevel::ERROR, message);
+		_handler(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
+		return false;
+	}
 }
 }
diff --git a/src/fileObject/FileObjectUploadInProgressState.h b/src/fileObject/FileObjectUploadInProgressState.h
index 8a8b25f..5facbdc 100644
--- a/src/fileObject/FileObjectUploadInProgressState.h
+++ b/src/fileObject/FileObjectUploadInProgressState.h
@@ -21,6 +21,8 @@ namespace fileObject {
 		bool transfer(SessionInfoIf::SPtr si) override;
 
 	private:
+		bool failTransfer(const std::string& message);
+
 		cip::CipUdint _fileSize;
 		cip::CipUsint _transferSize;
 		std::vector<uint8_t>_fileContent;
-- 
2.43.0


From f2b7b0b9cdc32e05fcc9852c216a56521a73499d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:33 +0000
Subject: [PATCH 16/40] fix: do not take a file state or size out of a
 truncated response

---
 src/fileObject/FileObjectLoadedState.cpp | 6 ++++++
 src/fileObject/FileObjectState.cpp       | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/src/fileObject/FileObjectLoadedState.cpp b/src/fileObject/FileObjectLoadedState.cpp
index f078943..645b649 100644
--- a/src/fileObject/FileObjectLoadedState.cpp
+++ b/src/fileObject/FileObjectLoadedState.cpp
@@ -31,6 +31,12 @@ namespace fileObject {
 			cip::CipUsint transferSize = 0;
 
 			buffer >> fileSize >> transferSize;
+			if (!buffer.isValid()) {
+				logWithStateName(LogLevel::ERROR, "Not enough data in the response");
+				handler(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>(0));
+				return;
+			}
+
 			setState<FileObjectUploadInProgressState>(fileSize, transferSize, handler);
 
 		} else {
diff --git a/src/fileObject/FileObjectState.cpp b/src/fileObject/FileObjectState.cpp
index 84d4bc2..394b847 100644
--- a/src/fileObject/FileObjectState.cpp
+++ b/src/fileObject/FileObjectState.cpp
@@ -63,6 +63,9 @@ namespace fileObject {
 			Buffer buffer(response.getData());
 			cip::CipUsint stateCode;
 			buffer >> stateCode;
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Not enough data in the response");
+			}
 
 			switch (static_cast<FileObjectStateCodes>(stateCode)) {
 				case FileObjectStateCodes::NONEXISTENT:
-- 
2.43.0


From 1b31900bf1a22bd64aed70fe2f61dbf71f42d06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:37 +0000
Subject: [PATCH 17/40] fix: reject truncated Identity and Parameter object
 responses

---
 src/IdentityObject.cpp  |  2 +-
 src/ParameterObject.cpp | 20 ++++++++++++++++----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/IdentityObject.cpp b/src/IdentityObject.cpp
index 0e771c9..5e11fea 100644
--- a/src/IdentityObject.cpp
+++ b/src/IdentityObject.cpp
@@ -48,7 +48,7 @@ namespace eipScanner {
 				>> _productName;
 
 			if (!buffer.isValid()) {
-				std::runtime_error("Not enough data in the response");
+				throw std::runtime_error("Not enough data in the response");
 			}
 
 		} else {
diff --git a/src/ParameterObject.cpp b/src/ParameterObject.cpp
index adc702b..c02fc51 100644
--- a/src/ParameterObject.cpp
+++ b/src/ParameterObject.cpp
@@ -93,6 +93,9 @@ namespace eipScanner {
 			CipUsint dataSize;
 			Buffer buffer(response.getData());
 			buffer >> dataSize;
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Not enough data in the response");
+			}
 
 			_value.resize(dataSize);
 			_minValue.resize(dataSize);
@@ -160,14 +163,17 @@ namespace eipScanner {
 						data.insert(data.end(), response.getData().begin(), response.getData().end());
 					}
 
-					buffer = Buffer(data);
-					buffer >> _scalingMultiplier >> _scalingDivisor
+					Buffer scalingBuffer(data);
+					scalingBuffer >> _scalingMultiplier >> _scalingDivisor
 						>> _scalingBase >> _scalingOffset;
+					if (!scalingBuffer.isValid()) {
+						throw std::runtime_error("Not enough data in the response");
+					}
 				}
 			}
 
 			if (!buffer.isValid()) {
-				std::runtime_error("Not enough data in the response");
+				throw std::runtime_error("Not enough data in the response");
 			}
 
 			Logger(LogLevel::DEBUG) << "Read Parameter Object"
@@ -189,7 +195,13 @@ namespace eipScanner {
 
 		if (response.getGeneralStatusCode() == GeneralStatusCodes::SUCCESS) {
 			Buffer buffer(response.getData());
-			buffer >> _value;
+			std::vector<uint8_t> value(_value.size());
+			buffer >> value;
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Not enough data in the response");
+			}
+
+			_value = value;
 		} else {
 			cip::logGeneralAndAdditionalStatus(response);
 			throw std::runtime_error("Failed to read value");
-- 
2.43.0


From e001014ee2bf690d0bc775336b4ec90c1704daf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:37 +0000
Subject: [PATCH 18/40] fix: reject truncated Forward Open responses

---
 src/cip/connectionManager/ForwardOpenResponse.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cip/connectionManager/ForwardOpenResponse.cpp b/src/cip/connectionManager/ForwardOpenResponse.cpp
index 622c1d1..d1282c1 100644
--- a/src/cip/connectionManager/ForwardOpenResponse.cpp
+++ b/src/cip/connectionManager/ForwardOpenResponse.cpp
@@ -2,6 +2,7 @@
 // Created by Aleksey Timin on 11/18/19.
 //
 
+#include <stdexcept>
 #include "ForwardOpenResponse.h"
 #include "utils/Buffer.h"
 
@@ -41,6 +42,10 @@ namespace connectionManager {
 
 		_applicationReplay.resize(_applicationReplaySize*2);
 		buffer >> _applicationReplay;
+
+		if (!buffer.isValid()) {
+			throw std::runtime_error("Not enough data in the Forward Open response");
+		}
 	}
 
 	CipUdint ForwardOpenResponse::getO2TNetworkConnectionId() const {
-- 
2.43.0


From b2903055f3b790d356340884af34a57c2bf6d7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:39 +0000
Subject: [PATCH 19/40] fix: keep zero ids when expanding a padded EPATH

---
 src/cip/EPath.cpp                              | 15 ++++++++++++---
 src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/cip/EPath.cpp b/src/cip/EPath.cpp
index 447ef30..7d91bc1 100644
--- a/src/cip/EPath.cpp
+++ b/src/cip/EPath.cpp
@@ -132,6 +132,9 @@ namespace cip {
 		_attributeId = 0;
 		_size = 0;
 
+		bool hasClass = false;
+		bool hasObject = false;
+		bool hasAttribute = false;
 		for (int i = 0; i < data.size() && !buffer.empty(); ++i) {
 			EPathSegmentTypes segmentType;
 			CipUsint ignore = 0;
@@ -142,26 +145,32 @@ namespace cip {
 				case EPathSegmentTypes::CLASS_8_BITS:
 					buffer >> byte;
 					_classId = byte;
+					hasClass = true;
 					break;
 				case EPathSegmentTypes::CLASS_16_BITS:
 					buffer >> ignore >> word;
 					_classId = word;
+					hasClass = true;
 					break;
 				case EPathSegmentTypes::INSTANCE_8_BITS:
 					buffer >> byte;
 					_objectId = byte;
+					hasObject = true;
 					break;
 				case EPathSegmentTypes::INSTANCE_16_BITS:
 					buffer >> ignore >> word;
 					_objectId = word;
+					hasObject = true;
 					break;
 				case EPathSegmentTypes::ATTRIBUTE_8_BITS:
 					buffer >> byte;
 					_attributeId = byte;
+					hasAttribute = true;
 					break;
 				case EPathSegmentTypes::ATTRIBUTE_16_BITS:
 					buffer >> ignore >> word;
 					_attributeId = word;
+					hasAttribute = true;
 					break;
 				default:
 					throw std::runtime_error("Unknown EPATH segment =" + std::to_string(static_cast<int>(segmentType)));
@@ -172,13 +181,13 @@ namespace cip {
 			throw std::runtime_error("Wrong EPATH format");
 		}
 
-		if (_classId > 0) {
+		if (hasClass) {
 			_size++;
 
-			if (_objectId > 0) {
+			if (hasObject) {
 				_size++;
 
-				if (_attributeId > 0) {
+				if (hasAttribute) {
 					_size++;
 				}
 			}
diff --git a/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp b/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
index db26946..8995f96 100644
--- a/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
+++ b/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
@@ -102,6 +102,9 @@ namespace cip {
 		_attributeId = 0;
 		_size = 0;
 
+		bool hasClass = false;
+		bool hasObject = false;
+		bool hasAttribute = false;
 		for (int i = 0; i < data.size() && !buffer.empty(); ++i) {
 			EPathSegmentTypes segmentType;
 			CipUsint ignore = 0;
@@ -112,26 +115,32 @@ namespace cip {
 				case EPathSegmentTypes::CLASS_8_BITS:
 					buffer >> byte;
 					_classId = byte;
+					hasClass = true;
 					break;
 				case EPathSegmentTypes::CLASS_16_BITS:
 					buffer >> ignore >> word;
 					_classId = word;
+					hasClass = true;
 					break;
 				case EPathSegmentTypes::INSTANCE_8_BITS:
 					buffer >> byte;
 					_objectId = byte;
+					hasObject = true;
 					break;
 				case EPathSegmentTypes::INSTANCE_16_BITS:
 					buffer >> ignore >> word;
 					_objectId = word;
+					hasObject = true;
 					break;
 				case EPathSegmentTypes::ATTRIBUTE_8_BITS:
 					buffer >> byte;
 					_attributeId = byte;
+					hasAttribute = true;
 					break;
 				case EPathSegmentTypes::ATTRIBUTE_16_BITS:
 					buffer >> ignore >> word;
 					_attributeId = word;
+					hasAttribute = true;
 					break;
 				default:
 					throw std::runtime_error("Unknown EPATH segment =" + std::to_string(static_cast<int>(segmentType)));
@@ -142,13 +151,13 @@ namespace cip {
 			throw std::runtime_error("Wrong EPATH format");
 		}
 
-		if (_classId > 0) {
+		if (hasClass) {
 			_size++;
 
-			if (_objectId > 0) {
+			if (hasObject) {
 				_size++;
 
-				if (_attributeId > 0) {
+				if (hasAttribute) {
 					_size++;
 				}
 			}
-- 
2.43.0


From 34e154ad74ebe63a2ae36d44939d7c3b4fc2a3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 20/40] fix: do not truncate ids to 8-bit path segments

---
 src/cip/EPath.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cip/EPath.cpp b/src/cip/EPath.cpp
index 7d91bc1..29aa53e 100644
--- a/src/cip/EPath.cpp
+++ b/src/cip/EPath.cpp
@@ -52,6 +52,10 @@ namespace cip {
 	std::vector<uint8_t> EPath::packPaddedPath(bool use_8_bit_path_segments) const {
         if (use_8_bit_path_segments)
         {
+            if (_classId > 0xFF || (_size > 1 && _objectId > 0xFF) || (_size > 2 && _attributeId > 0xFF)) {
+                throw std::runtime_error("EPATH " + toString() + " doesn't fit in 8-bit segments");
+            }
+
             Buffer buffer(_size*2);
 
             auto classSegment = static_cast<CipUsint>(EPathSegmentTypes::CLASS_8_BITS);
-- 
2.43.0


From 7de6790d9c475e15d767680739e417c771d14d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:44 +0000
Subject: [PATCH 21/40] fix: reject truncated DPI fault responses

---
 src/vendor/ra/powerFlex525/DPIFaultObject.cpp    | 4 ++++
 src/vendor/ra/powerFlex525/DPIFaultParameter.cpp | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/vendor/ra/powerFlex525/DPIFaultObject.cpp b/src/vendor/ra/powerFlex525/DPIFaultObject.cpp
index e3f99cb..d839737 100644
--- a/src/vendor/ra/powerFlex525/DPIFaultObject.cpp
+++ b/src/vendor/ra/powerFlex525/DPIFaultObject.cpp
@@ -54,6 +54,10 @@ namespace powerFlex525 {
 
             cip::CipUint flags;
             buffer >> flags;
+            if (!buffer.isValid()) {
+                throw std::runtime_error("Not enough data in the response");
+            }
+
             _fullInformation.isValidData = flags & VALID_DATA;
             _fullInformation.isRealTime = flags & REAL_TIME;
         } else {
diff --git a/src/vendor/ra/powerFlex525/DPIFaultParameter.cpp b/src/vendor/ra/powerFlex525/DPIFaultParameter.cpp
index db43afb..b4cd508 100644
--- a/src/vendor/ra/powerFlex525/DPIFaultParameter.cpp
+++ b/src/vendor/ra/powerFlex525/DPIFaultParameter.cpp
@@ -168,6 +168,9 @@ namespace powerFlex525 {
 			Buffer buffer(response.getData());
 			CipUint value;
 			buffer >> value;
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Not enough data in the response");
+			}
 
 			return value;
 
-- 
2.43.0


From a7cdee3eacfe36c10f9cdd71da6b569445c7ce05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:24 +0000
Subject: [PATCH 22/40] fix: receive IO datagrams of large connections in full

---
 src/ConnectionManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index ad0fad3..46b2000 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -242,7 +242,8 @@ namespace eipScanner {
 			});
 
 			newSocket->setBeginReceiveHandler([this](BaseSocket& sock) {
-				auto recvData = sock.Receive(8192);
+				// Large connections use datagrams up to the limit of UDP
+				auto recvData = sock.Receive(65535);
 				CommonPacket commonPacket;
 				cip::CipUdint connectionId = 0;
 				std::vector<uint8_t> connectedData;
-- 
2.43.0


From f916a53a66ea9cc3909244321e9aed444224338f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:05 +0000
Subject: [PATCH 23/40] fix: do not overflow the scaling product of large
 factors

---
 src/ParameterObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ParameterObject.cpp b/src/ParameterObject.cpp
index c02fc51..6bdf80f 100644
--- a/src/ParameterObject.cpp
+++ b/src/ParameterObject.cpp
@@ -318,7 +318,7 @@ namespace eipScanner {
 	cip::CipLreal ParameterObject::engToActualValue(cip::CipLreal engValue) const {
 		if (_isScalable) {
 			return (engValue * _scalingDivisor * std::pow(10, _precision))
-				   / (_scalingMultiplier * _scalingBase) - _scalingOffset;
+				   / (static_cast<CipLreal>(_scalingMultiplier) * _scalingBase) - _scalingOffset;
 		} else {
 			return engValue;
 		}
-- 
2.43.0


From 7de3d171d2d05c2fd1eab9f37d36d350ed6add59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:22 +0000
Subject: [PATCH 24/40] fix: call the close listener only once

A close listener which calls ConnectionManager::handleConnections() was
called again for the same connection, without end.
---
 src/IOConnection.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 8709d07..0eaffeb 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -107,7 +107,10 @@ namespace eipScanner {
 			std::chrono::duration_cast<std::chrono::microseconds>(now - _lastReceiveTime);
 		if (sinceLastReceive.count() > static_cast<int64_t>(_connectionTimeoutMultiplier) * _t2oAPI) {
 			Logger(LogLevel::WARNING) << "Connection SeriaNumber=" << _serialNumber << " is closed by timeout";
-			_closeHandle();
+			// The listener may handle the connections too
+			auto closeHandle = std::move(_closeHandle);
+			_closeHandle = []() {};
+			closeHandle();
 			return false;
 		}
 
-- 
2.43.0


From f93b157fe6c2a738ecd6651ae7976f540f76c95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:22 +0000
Subject: [PATCH 25/40] fix: number IO packets in the order they are sent

A send listener which calls ConnectionManager::handleConnections() could
make the connection send its next packet before the one being built.
---
 src/IOConnection.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 0eaffeb..a0eda4e 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -118,6 +118,10 @@ namespace eipScanner {
 
 		_o2tTimer += periodInMicroS;
 		if (_o2tTimer >= _o2tAPI) {
+			_o2tTimer = 0;
+			// The listener may handle the connections too, so the packet gets its numbers after it
+			_sendDataHandle(_outputData);
+
 			_o2tSequenceNumber++;
 			CommonPacket commonPacket;
 			CommonPacketItemFactory factory;
@@ -134,8 +138,6 @@ namespace eipScanner {
 				buffer << header;
 			}
 
-			_o2tTimer = 0;
-			_sendDataHandle(_outputData);
 			if (_o2tFixedSize && _outputData.size() != _o2tDataSize)  {
 				Logger(LogLevel::WARNING) << "Connection O2T_ID=" << _o2tNetworkConnectionId
 										  << " has fixed size " << _o2tDataSize << " bytes but " << _outputData.size()
-- 
2.43.0


From 9b9ab8afdea85bd3ed939447ec297c2607cf2b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 26/40] fix: give an empty CIP string a length

---
 src/cip/CipString.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cip/CipString.h b/src/cip/CipString.h
index 1cdc713..2c76fc4 100644
--- a/src/cip/CipString.h
+++ b/src/cip/CipString.h
@@ -42,7 +42,7 @@ namespace cip {
 		}
 
 	private:
-		T _length;
+		T _length = 0;
 		std::vector<uint8_t> _data;
 	};
 
-- 
2.43.0


From 463a8cb2caca47bd55f2f7d7e927074e875a1d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 27/40] fix: let the setters of connection parameters replace
 the old value

---
 .../NetworkConnectionParametersBuilder.cpp     | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp b/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp
index 219a191..2623bae 100644
--- a/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp
+++ b/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp
@@ -21,36 +21,36 @@ namespace connectionManager {
 
 	NetworkConnectionParametersBuilder NetworkConnectionParametersBuilder::setRedundantOwner(RedundantOwner val) {
 		if (_lfo) {
-			_value |= (val << 31);
+			_value = (_value & ~(1u << 31)) | (static_cast<CipUdint>(val) << 31);
 		} else {
-			_value |= (val << 15);
+			_value = (_value & ~(1u << 15)) | (static_cast<CipUdint>(val) << 15);
 		}
 		return *this;
 	}
 
 	NetworkConnectionParametersBuilder& NetworkConnectionParametersBuilder::setConnectionType(ConnectionType val) {
 		if (_lfo) {
-			_value |= (val << 29);
+			_value = (_value & ~(3u << 29)) | (static_cast<CipUdint>(val) << 29);
 		} else {
-			_value |= (val << 13);
+			_value = (_value & ~(3u << 13)) | (static_cast<CipUdint>(val) << 13);
 		}
 		return *this;
 	}
 
 	NetworkConnectionParametersBuilder& NetworkConnectionParametersBuilder::setPriority(Priority val) {
 		if (_lfo) {
-			_value |= (val << 26);
+			_value = (_value & ~(3u << 26)) | (static_cast<CipUdint>(val) << 26);
 		}else {
-			_value |= (val << 10);
+			_value = (_value & ~(3u << 10)) | (static_cast<CipUdint>(val) << 10);
 		}
 		return *this;
 	}
 
 	NetworkConnectionParametersBuilder& NetworkConnectionParametersBuilder::setType(Type val) {
 		if (_lfo) {
-			_value |= (val << 25);
+			_value = (_value & ~(1u << 25)) | (static_cast<CipUdint>(val) << 25);
 		} else {
-			_value |= (val << 9);
+			_value = (_value & ~(1u << 9)) | (static_cast<CipUdint>(val) << 9);
 		}
 		return *this;
 	}
@@ -60,7 +60,7 @@ namespace connectionManager {
 		if (_lfo) {
 			mask = 0x0000FFFF;
 		}
-		_value |= val & mask;
+		_value = (_value & ~mask) | (val & mask);
 		return *this;
 	}
 
-- 
2.43.0


From 4230b349990ef58327ef038a8cd9afa0d220c3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 28/40] fix: let setRedundantOwner be chained like the other
 setters

---
 .../connectionManager/NetworkConnectionParametersBuilder.cpp    | 2 +-
 src/cip/connectionManager/NetworkConnectionParametersBuilder.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp b/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp
index 2623bae..06eb261 100644
--- a/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp
+++ b/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp
@@ -19,7 +19,7 @@ namespace connectionManager {
 
 	}
 
-	NetworkConnectionParametersBuilder NetworkConnectionParametersBuilder::setRedundantOwner(RedundantOwner val) {
+	NetworkConnectionParametersBuilder& NetworkConnectionParametersBuilder::setRedundantOwner(RedundantOwner val) {
 		if (_lfo) {
 			_value = (_value & ~(1u << 31)) | (static_cast<CipUdint>(val) << 31);
 		} else {
diff --git a/src/cip/connectionManager/NetworkConnectionParametersBuilder.h b/src/cip/connectionManager/NetworkConnectionParametersBuilder.h
index ba091fa..203bb1a 100644
--- a/src/cip/connectionManager/NetworkConnectionParametersBuilder.h
+++ b/src/cip/connectionManager/NetworkConnectionParametersBuilder.h
@@ -41,7 +41,7 @@ namespace connectionManager {
 		NetworkConnectionParametersBuilder(CipUdint val = 0, bool lfo = false);
 		virtual ~NetworkConnectionParametersBuilder() = default;
 
-		NetworkConnectionParametersBuilder setRedundantOwner(RedundantOwner val);
+		NetworkConnectionParametersBuilder& setRedundantOwner(RedundantOwner val);
 		NetworkConnectionParametersBuilder& setConnectionType(ConnectionType val);
 		NetworkConnectionParametersBuilder& setPriority(Priority val);
 		NetworkConnectionParametersBuilder& setType(Type val);
-- 
2.43.0


From 1ae1ca7a250f9f808d7b7b127736a4e10d258404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 29/40] fix: keep IO connections going when a datagram can't be
 sent

The next cycle sends newer data; the other connections must be handled too.
---
 src/IOConnection.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index a0eda4e..3c9282b 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -2,6 +2,7 @@
 // Created by Aleksey Timin on 11/18/19.
 //
 
+#include <system_error>
 #include "IOConnection.h"
 #include "eip/CommonPacketItemFactory.h"
 #include "eip/CommonPacket.h"
@@ -146,7 +147,13 @@ namespace eipScanner {
 				buffer << _outputData;
 				commonPacket << factory.createConnectedDataItem(buffer.data());
 
-				_socket->Send(commonPacket.pack());
+				// The next cycle sends newer data, the connection lives as long as the target is heard of
+				try {
+					_socket->Send(commonPacket.pack());
+				} catch (std::system_error& er) {
+					Logger(LogLevel::WARNING) << "Connection O2T_ID=" << _o2tNetworkConnectionId
+											  << " can't send data: " << er.what();
+				}
 			}
 		}
 
-- 
2.43.0


From 632a0ca3ad57667737ca6403a439a7cf759009bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 30/40] fix: report the failure of UDPSocket::Send

The result -1 was compared as an unsigned number, so an error was taken
for success.
---
 src/sockets/UDPSocket.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sockets/UDPSocket.cpp b/src/sockets/UDPSocket.cpp
index 52858aa..69e5460 100644
--- a/src/sockets/UDPSocket.cpp
+++ b/src/sockets/UDPSocket.cpp
@@ -59,9 +59,9 @@ namespace sockets {
 		flags |= MSG_NOSIGNAL;
 #endif
 		auto addr = _remoteEndPoint.getAddr();
-		int count = sendto(_sockedFd, (char*)data.data(), data.size(), flags,
+		auto count = sendto(_sockedFd, (char*)data.data(), data.size(), flags,
 				(struct sockaddr *)&addr, sizeof(addr));
-		if (count < data.size()) {
+		if (count < 0 || static_cast<size_t>(count) < data.size()) {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 		}
 	}
-- 
2.43.0


From c0e26b8878b0609a3a5df6392e149c46ae67e58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 31/40] fix: keep the end handler of an upload alive while it
 runs

---
 src/fileObject/FileObjectUploadInProgressState.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/fileObject/FileObjectUploadInProgressState.cpp b/src/fileObject/FileObjectUploadInProgressState.cpp
index ea8f5c2..7779014 100644
--- a/src/fileObject/FileObjectUploadInProgressState.cpp
+++ b/src/fileObject/FileObjectUploadInProgressState.cpp
@@ -32,6 +32,9 @@ namespace fileObject {
 	}
 
 	bool FileObjectUploadInProgressState::transfer(SessionInfoIf::SPtr si) {
+		// The handler may synchronize the file object and so replace and destroy this state
+		const EndUploadHandler handler = _handler;
+
 		Buffer buffer;
 		buffer << _transferNumber;
 
@@ -57,7 +60,7 @@ namespace fileObject {
 
 			if (transferNumber != _transferNumber) {
 				logWithStateName(LogLevel::ERROR, "Wrong transfer number");
-				_handler(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
+				handler(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
 				return false;
 			}
 
@@ -93,10 +96,10 @@ namespace fileObject {
 
 					_fileContent.insert(_fileContent.end(), fileData.begin(), fileData.end());
 					if (_fileContent.size() == _fileSize) {
-						_handler(cip::GeneralStatusCodes::SUCCESS, _fileContent);
+						handler(cip::GeneralStatusCodes::SUCCESS, std::vector<uint8_t>(_fileContent));
 					} else {
 						logWithStateName(LogLevel::ERROR, "Wrong size of the uploaded file");
-						_handler(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
+						handler(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
 					}
 					return false;
 				}
@@ -107,7 +110,7 @@ namespace fileObject {
 			_transferNumber++;
 		} else {
 			logGeneralAndAdditionalStatus(response);
-			_handler(response.getGeneralStatusCode(), std::vector<uint8_t>());
+			handler(response.getGeneralStatusCode(), std::vector<uint8_t>());
 			return false;
 		}
 
@@ -116,7 +119,8 @@ namespace fileObject {
 
 	bool FileObjectUploadInProgressState::failTransfer(const std::string& message) {
 		logWithStateName(LogLevel::ERROR, message);
-		_handler(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
+		const EndUploadHandler handler = _handler;
+		handler(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
 		return false;
 	}
 }
-- 
2.43.0


From 0762dbb68f970c492469552dde20ea614fab777b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:27 +0000
Subject: [PATCH 32/40] fix: end an upload with the call of its end handler

Handling transfers further sent the last request again and called the
handler again.
---
 .../FileObjectUploadInProgressState.cpp       | 26 ++++++++++++-------
 .../FileObjectUploadInProgressState.h         |  2 ++
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/fileObject/FileObjectUploadInProgressState.cpp b/src/fileObject/FileObjectUploadInProgressState.cpp
index 7779014..ec916a7 100644
--- a/src/fileObject/FileObjectUploadInProgressState.cpp
+++ b/src/fileObject/FileObjectUploadInProgressState.cpp
@@ -32,8 +32,10 @@ namespace fileObject {
 	}
 
 	bool FileObjectUploadInProgressState::transfer(SessionInfoIf::SPtr si) {
-		// The handler may synchronize the file object and so replace and destroy this state
-		const EndUploadHandler handler = _handler;
+		if (_isFinished) {
+			logWithStateName(LogLevel::WARNING, "The upload is already finished");
+			return false;
+		}
 
 		Buffer buffer;
 		buffer << _transferNumber;
@@ -60,8 +62,7 @@ namespace fileObject {
 
 			if (transferNumber != _transferNumber) {
 				logWithStateName(LogLevel::ERROR, "Wrong transfer number");
-				handler(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
-				return false;
+				return finishTransfer(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
 			}
 
 			switch (transferPacketType) {
@@ -96,12 +97,11 @@ namespace fileObject {
 
 					_fileContent.insert(_fileContent.end(), fileData.begin(), fileData.end());
 					if (_fileContent.size() == _fileSize) {
-						handler(cip::GeneralStatusCodes::SUCCESS, std::vector<uint8_t>(_fileContent));
+						return finishTransfer(cip::GeneralStatusCodes::SUCCESS, std::move(_fileContent));
 					} else {
 						logWithStateName(LogLevel::ERROR, "Wrong size of the uploaded file");
-						handler(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
+						return finishTransfer(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
 					}
-					return false;
 				}
 				default:
 					throw std::runtime_error("Received unexpected transfer type");
@@ -110,8 +110,7 @@ namespace fileObject {
 			_transferNumber++;
 		} else {
 			logGeneralAndAdditionalStatus(response);
-			handler(response.getGeneralStatusCode(), std::vector<uint8_t>());
-			return false;
+			return finishTransfer(response.getGeneralStatusCode(), std::vector<uint8_t>());
 		}
 
 		return true;
@@ -119,8 +118,15 @@ namespace fileObject {
 
 	bool FileObjectUploadInProgressState::failTransfer(const std::string& message) {
 		logWithStateName(LogLevel::ERROR, message);
+		return finishTransfer(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
+	}
+
+	bool FileObjectUploadInProgressState::finishTransfer(cip::GeneralStatusCodes status,
+														 std::vector<uint8_t> fileContent) {
+		_isFinished = true;
+		// The handler may synchronize the file object and so replace and destroy this state
 		const EndUploadHandler handler = _handler;
-		handler(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
+		handler(status, fileContent);
 		return false;
 	}
 }
diff --git a/src/fileObject/FileObjectUploadInProgressState.h b/src/fileObject/FileObjectUploadInProgressState.h
index 5facbdc..5b762d4 100644
--- a/src/fileObject/FileObjectUploadInProgressState.h
+++ b/src/fileObject/FileObjectUploadInProgressState.h
@@ -22,11 +22,13 @@ namespace fileObject {
 
 	private:
 		bool failTransfer(const std::string& message);
+		bool finishTransfer(cip::GeneralStatusCodes status, std::vector<uint8_t> fileContent);
 
 		cip::CipUdint _fileSize;
 		cip::CipUsint _transferSize;
 		std::vector<uint8_t>_fileContent;
 		cip::CipUsint _transferNumber;
+		bool _isFinished{false};
 
 		EndUploadHandler _handler;
 	};
-- 
2.43.0


From 4cc83ed3e6cc67d344886ebd07500c7e39fba082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:30 +0000
Subject: [PATCH 33/40] fix: resume receiving a datagram after a signal

A signal made Receive and ReceiveFrom throw, which ended a discovery and
lost the devices found so far.
---
 src/sockets/UDPSocket.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/sockets/UDPSocket.cpp b/src/sockets/UDPSocket.cpp
index 69e5460..f278159 100644
--- a/src/sockets/UDPSocket.cpp
+++ b/src/sockets/UDPSocket.cpp
@@ -69,7 +69,16 @@ namespace sockets {
 	std::vector<uint8_t> UDPSocket::Receive(size_t size) const {
 		std::vector<uint8_t> recvBuffer(size);
 
-		auto len = recvfrom(_sockedFd, (char*)recvBuffer.data(), recvBuffer.size(), 0, NULL, NULL);
+		auto receive = [&]() {
+			return recvfrom(_sockedFd, (char*)recvBuffer.data(), recvBuffer.size(), 0, NULL, NULL);
+		};
+
+		auto len = receive();
+		// Check for EINTR, in which case, better luck next time
+		while (len < 0 && BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR)) {
+			len = receive();
+		}
+
 		Logger(LogLevel::TRACE) << "Received " << len << " bytes from UDP socket #" << _sockedFd << ".";
 		if (len < 0) {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
@@ -83,7 +92,16 @@ namespace sockets {
 		std::vector<uint8_t> recvBuffer(size);
 		struct sockaddr_in addr;
 		socklen_t addrFromLength = sizeof(addr);
-		auto len = recvfrom(_sockedFd, (char*)recvBuffer.data(), recvBuffer.size(), 0, (struct sockaddr*)&addr, &addrFromLength);
+		auto receive = [&]() {
+			return recvfrom(_sockedFd, (char*)recvBuffer.data(), recvBuffer.size(), 0, (struct sockaddr*)&addr, &addrFromLength);
+		};
+
+		auto len = receive();
+		// Check for EINTR, in which case, better luck next time
+		while (len < 0 && BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR)) {
+			len = receive();
+		}
+
 		Logger(LogLevel::TRACE) << "Received " << len << " bytes from UDP socket #" << _sockedFd << ".";
 		if (len < 0) {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
-- 
2.43.0


From ffbb6dd81cf1dddce1442620e20237f518a473ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:33 +0000
Subject: [PATCH 34/40] fix: resume handling connections after a signal

A signal while waiting for datagrams made handleConnections throw.
---
 src/sockets/BaseSocket.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sockets/BaseSocket.cpp b/src/sockets/BaseSocket.cpp
index 3b850c0..3602ed7 100644
--- a/src/sockets/BaseSocket.cpp
+++ b/src/sockets/BaseSocket.cpp
@@ -138,7 +138,11 @@ namespace sockets {
 
 			ready = ::select(maxFd + 1, &recvSet, NULL, NULL, &tv);
 			if (ready < 0) {
-				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+				// Check for EINTR, in which case we wait for the rest of the time
+				if (BaseSocket::getLastError() != EIPSCANNER_SOCKET_ERROR(EINTR)) {
+					throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+				}
+				FD_ZERO(&recvSet);
 			}
 
 			for (auto& sock : sockets) {
@@ -149,7 +153,7 @@ namespace sockets {
 			}
 
 			startTime = std::chrono::steady_clock::now();
-		} while(ready > 0);
+		} while(ready != 0);
 	}
 
 	const EndPoint &BaseSocket::getRemoteEndPoint() const {
-- 
2.43.0


From 9d1e7fef9569ebea75e8d2d07a75f4e7c46d9f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:50 +0000
Subject: [PATCH 35/40] fix: close the TCP socket if it can't be made
 non-blocking

The constructor threw before the block that closes the descriptor.
---
 src/sockets/TCPSocket.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index 1b392da..16ad2fe 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -43,23 +43,23 @@ namespace eipScanner {
 			}
 #endif
 
-			// Set non-blocking
-#if defined(__unix__) || defined(__APPLE__)
-			auto arg = fcntl(_sockedFd, F_GETFL, NULL);
-			if (arg < 0) {
-				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
-			}
-
-			arg |= O_NONBLOCK;
-			if (fcntl(_sockedFd, F_SETFL, arg) < 0) {
-				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
-			}
-#endif
-
 			Logger(LogLevel::DEBUG) << "Opened TCP socket fd=" << _sockedFd;
 
 			Logger(LogLevel::DEBUG) << "Connecting to " << _remoteEndPoint.toString();
 			try {
+				// Set non-blocking
+#if defined(__unix__) || defined(__APPLE__)
+				auto arg = fcntl(_sockedFd, F_GETFL, NULL);
+				if (arg < 0) {
+					throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+				}
+
+				arg |= O_NONBLOCK;
+				if (fcntl(_sockedFd, F_SETFL, arg) < 0) {
+					throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+				}
+#endif
+
 				auto addr = _remoteEndPoint.getAddr();
 				auto res = connect(_sockedFd, (struct sockaddr *) &addr, sizeof(addr));
 				if (res < 0) {
-- 
2.43.0


From a36e0570c56384a6060926ce3ee5b38dd96c6efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:53 +0000
Subject: [PATCH 36/40] fix: resume connecting after a signal

A signal during the connection attempt was taken for a timeout.
---
 src/sockets/TCPSocket.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index 16ad2fe..b1f0081 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -64,16 +64,21 @@ namespace eipScanner {
 				auto res = connect(_sockedFd, (struct sockaddr *) &addr, sizeof(addr));
 				if (res < 0) {
 					if (BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINPROGRESS)) {
+						auto stopTime = std::chrono::steady_clock::now() + connTimeout;
 						do {
 							fd_set myset;
-							auto tv = makePortableInterval(connTimeout);
+							auto tv = makePortableInterval(std::chrono::duration_cast<std::chrono::milliseconds>(
+									stopTime - std::chrono::steady_clock::now()));
 
 							FD_ZERO(&myset);
 							FD_SET(_sockedFd, &myset);
 							res = ::select(_sockedFd + 1, NULL, &myset, NULL, &tv);
 
-							if (res < 0 && BaseSocket::getLastError() != EIPSCANNER_SOCKET_ERROR(EINTR)) {
-								throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+							if (res < 0) {
+								// Check for EINTR, in which case, better luck next time
+								if (BaseSocket::getLastError() != EIPSCANNER_SOCKET_ERROR(EINTR)) {
+									throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+								}
 							} else if (res > 0) {
 								// Socket selected for write
 								int err;
-- 
2.43.0


From 71362624b00e6b73f513af4a8da286fe868b8dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:33 +0000
Subject: [PATCH 37/40] fix: a signal during the sending of a datagram made the
 sending fail

---
 src/sockets/UDPSocket.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/sockets/UDPSocket.cpp b/src/sockets/UDPSocket.cpp
index f278159..1e381c6 100644
--- a/src/sockets/UDPSocket.cpp
+++ b/src/sockets/UDPSocket.cpp
@@ -59,8 +59,17 @@ namespace sockets {
 		flags |= MSG_NOSIGNAL;
 #endif
 		auto addr = _remoteEndPoint.getAddr();
-		auto count = sendto(_sockedFd, (char*)data.data(), data.size(), flags,
-				(struct sockaddr *)&addr, sizeof(addr));
+		auto send = [&]() {
+			return sendto(_sockedFd, (char*)data.data(), data.size(), flags,
+					(struct sockaddr *)&addr, sizeof(addr));
+		};
+
+		auto count = send();
+		// Check for EINTR, in which case, better luck next time
+		while (count < 0 && BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR)) {
+			count = send();
+		}
+
 		if (count < 0 || static_cast<size_t>(count) < data.size()) {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 		}
-- 
2.43.0


From 62206adf753799f627a5b8723db1a4a3cf78be9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:44 +0000
Subject: [PATCH 38/40] fix: a receive or send listener that replaced itself
 was destroyed while it ran

---
 src/IOConnection.cpp | 18 +++++++++++-------
 src/IOConnection.h   |  4 ++--
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 3c9282b..b0c66c0 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -41,9 +41,9 @@ namespace eipScanner {
 			, _originatorVendorId{0}
 			, _originatorSerialNumber{0}
 			, _outputData()
-			, _receiveDataHandle([](auto, auto, auto) {})
+			, _receiveDataHandle(std::make_shared<ReceiveDataHandle>([](auto, auto, auto) {}))
 			, _closeHandle([]() {})
-			, _sendDataHandle([](auto) {})
+			, _sendDataHandle(std::make_shared<SendDataHandle>([](auto) {}))
 			, _lastHandleTime(std::chrono::steady_clock::now())
 			, _lastReceiveTime(_lastHandleTime) {
 	}
@@ -55,11 +55,11 @@ namespace eipScanner {
 	}
 
 	void IOConnection::setReceiveDataListener(ReceiveDataHandle handle) {
-		_receiveDataHandle = std::move(handle);
+		_receiveDataHandle = std::make_shared<ReceiveDataHandle>(std::move(handle));
 	}
 
 	void IOConnection::setSendDataListener(SendDataHandle handle) {
-        	_sendDataHandle = std::move(handle);
+		_sendDataHandle = std::make_shared<SendDataHandle>(std::move(handle));
 	}
 
 	void IOConnection::setCloseListener(CloseHandle handle) {
@@ -93,7 +93,9 @@ namespace eipScanner {
 				<< " bytes were received. Ignore this data.";
 		} else {
 			_lastReceiveTime = std::chrono::steady_clock::now();
-			_receiveDataHandle(runtimeHeader, sequenceValueCount,
+			// The listener may be replaced by another one while it runs
+			auto receiveDataHandle = _receiveDataHandle;
+			(*receiveDataHandle)(runtimeHeader, sequenceValueCount,
 							   ioData);
 		}
 	}
@@ -120,8 +122,10 @@ namespace eipScanner {
 		_o2tTimer += periodInMicroS;
 		if (_o2tTimer >= _o2tAPI) {
 			_o2tTimer = 0;
-			// The listener may handle the connections too, so the packet gets its numbers after it
-			_sendDataHandle(_outputData);
+			// The listener may handle the connections too, so the packet gets its numbers after it.
+			// It may also be replaced by another one while it runs
+			auto sendDataHandle = _sendDataHandle;
+			(*sendDataHandle)(_outputData);
 
 			_o2tSequenceNumber++;
 			CommonPacket commonPacket;
diff --git a/src/IOConnection.h b/src/IOConnection.h
index 13b0932..a4cb0ad 100644
--- a/src/IOConnection.h
+++ b/src/IOConnection.h
@@ -101,9 +101,9 @@ namespace eipScanner {
 
 		sockets::UDPSocket::UPtr _socket;
 
-		ReceiveDataHandle _receiveDataHandle;
+		std::shared_ptr<ReceiveDataHandle> _receiveDataHandle;
 		CloseHandle _closeHandle;
-		SendDataHandle _sendDataHandle;
+		std::shared_ptr<SendDataHandle> _sendDataHandle;
 
 		std::chrono::steady_clock::time_point _lastHandleTime;
 		std::chrono::steady_clock::time_point _lastReceiveTime;
-- 
2.43.0


From da9aea6c63ead2e35dade07bebe199d820bc4ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:44 +0000
Subject: [PATCH 39/40] fix: a fault listener that replaced itself was
 destroyed while it ran

---
 src/vendor/ra/powerFlex525/DPIFaultManager.cpp | 8 +++++---
 src/vendor/ra/powerFlex525/DPIFaultManager.h   | 3 ++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/vendor/ra/powerFlex525/DPIFaultManager.cpp b/src/vendor/ra/powerFlex525/DPIFaultManager.cpp
index 00f2334..fa45f42 100644
--- a/src/vendor/ra/powerFlex525/DPIFaultManager.cpp
+++ b/src/vendor/ra/powerFlex525/DPIFaultManager.cpp
@@ -31,7 +31,7 @@ namespace powerFlex525 {
 	}
 
 	DPIFaultManager::DPIFaultManager(bool clearFaults, bool resetDevice, bool getFaultDetails)
-		: _newFaultHandler([](auto){})
+		: _newFaultHandler(std::make_shared<NewFaultHandler>([](auto){}))
 		, _trippedDeviceHandler([](auto){})
 		, _lastTrippedState(-1)
 		, _clearFaultsQueue(clearFaults)
@@ -40,7 +40,7 @@ namespace powerFlex525 {
 	}
 
 	void DPIFaultManager::setNewFaultListener(DPIFaultManager::NewFaultHandler handler) {
-		_newFaultHandler = std::move(handler);
+		_newFaultHandler = std::make_shared<NewFaultHandler>(std::move(handler));
 	}
 
 	void DPIFaultManager::setTrippedDeviceListener(DPIFaultManager::TrippedDeviceHandler handler) {
@@ -67,7 +67,9 @@ namespace powerFlex525 {
 				faultInformation.setFaultDetails(faultDetails);
 			}
 			faultCount++;
-			_newFaultHandler(faultInformation);
+			// The listener may be replaced by another one while it runs
+			auto newFaultHandler = _newFaultHandler;
+			(*newFaultHandler)(faultInformation);
 		}
 
 		if (faultCount > 0) {
diff --git a/src/vendor/ra/powerFlex525/DPIFaultManager.h b/src/vendor/ra/powerFlex525/DPIFaultManager.h
index d56af02..4dfd575 100644
--- a/src/vendor/ra/powerFlex525/DPIFaultManager.h
+++ b/src/vendor/ra/powerFlex525/DPIFaultManager.h
@@ -5,6 +5,7 @@
 #ifndef EIPSCANNER_DPIFAULTMANAGER_H
 #define EIPSCANNER_DPIFAULTMANAGER_H
 
+#include <memory>
 #include <vector>
 #include <functional>
 #include "DPIFaultObject.h"
@@ -89,7 +90,7 @@ namespace powerFlex525 {
 				const MessageRouter::SPtr& messageRouter) const;
 
 	private:
-		NewFaultHandler _newFaultHandler;
+		std::shared_ptr<NewFaultHandler> _newFaultHandler;
 		TrippedDeviceHandler _trippedDeviceHandler;
 		cip::CipUsint _lastTrippedState;
 		bool _clearFaultsQueue; // clears fault queue after reading all fault
-- 
2.43.0


From 682f84d27b1263ce0c5edd42e3e5c58e8079fa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:17 +0000
Subject: [PATCH 40/40] fix: a log message changed the error a socket reported

UDPSocket wrote its trace message between the failed recvfrom() and the
reading of errno, so an appender that touches errno turned the end of a
discovery into an error.
---
 src/sockets/UDPSocket.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sockets/UDPSocket.cpp b/src/sockets/UDPSocket.cpp
index 1e381c6..3239c1f 100644
--- a/src/sockets/UDPSocket.cpp
+++ b/src/sockets/UDPSocket.cpp
@@ -88,11 +88,11 @@ namespace sockets {
 			len = receive();
 		}
 
-		Logger(LogLevel::TRACE) << "Received " << len << " bytes from UDP socket #" << _sockedFd << ".";
 		if (len < 0) {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 		}
 
+		Logger(LogLevel::TRACE) << "Received " << len << " bytes from UDP socket #" << _sockedFd << ".";
 		recvBuffer.resize(len);
 		return recvBuffer;
 	}
@@ -111,11 +111,11 @@ namespace sockets {
 			len = receive();
 		}
 
-		Logger(LogLevel::TRACE) << "Received " << len << " bytes from UDP socket #" << _sockedFd << ".";
 		if (len < 0) {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 		}
 
+		Logger(LogLevel::TRACE) << "Received " << len << " bytes from UDP socket #" << _sockedFd << ".";
 		endPoint = EndPoint(addr);
 		recvBuffer.resize(len);
 		return recvBuffer;
-- 
2.43.0

