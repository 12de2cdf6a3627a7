"""Transcribed definitions used as oracles by rules/c09.py."""
GSM_BASIC = [64, 163, 36, 165, 232, 233, 249, 236, 242, 199, 10, 216, 248, 13, 197, 229, 916, 95, 934, 915, 923, 937, 928,
 936, 931, 920, 926, -1, 198, 230, 223, 201, 32, 33, 34, 35, 164, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47,
 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 161, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74,
 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 196, 214, 209, 220, 167, 191, 97, 98, 99,
 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121,
 122, 228, 246, 241, 252, 224]
GSM_EXT = {10: 12, 20: 94, 40: 123, 41: 125, 47: 92, 60: 91, 61: 126, 62: 93, 64: 124, 101: 8364}
GSM_EXT_FALLBACK = {}
GSM_APPROX = {9: 32,
 96: 39,
 130: 44,
 131: 102,
 132: 34,
 136: 6932,
 138: 83,
 139: 60,
 140: 20293,
 142: 90,
 145: 39,
 146: 39,
 147: 34,
 148: 34,
 150: 45,
 151: 45,
 152: 6973,
 153: 29805,
 154: 115,
 155: 62,
 156: 28517,
 158: 122,
 159: 89,
 160: 32,
 162: 99,
 166: 6976,
 168: 34,
 169: 99,
 170: 97,
 171: 34,
 172: 45,
 173: 45,
 174: 114,
 175: 45,
 178: 50,
 179: 51,
 180: 39,
 181: 117,
 183: 46,
 185: 49,
 186: 111,
 187: 34,
 192: 65,
 193: 65,
 194: 65,
 195: 65,
 200: 69,
 202: 69,
 203: 69,
 204: 73,
 205: 73,
 206: 73,
 207: 73,
 208: 68,
 210: 79,
 211: 79,
 212: 79,
 213: 79,
 215: 120,
 217: 85,
 218: 85,
 219: 85,
 221: 89,
 225: 97,
 226: 97,
 227: 97,
 231: 99,
 234: 101,
 235: 101,
 237: 105,
 238: 105,
 239: 105,
 240: 100,
 243: 111,
 244: 111,
 245: 111,
 247: 47,
 250: 117,
 251: 117,
 253: 121,
 255: 121}
GSM_NONE = -1
CIMD = {'!!': 161,
 '--': 95,
 '??': 191,
 'A"': 196,
 'A*': 197,
 'AE': 198,
 'C,': 199,
 "E'": 201,
 'L-': 163,
 'N~': 209,
 'O"': 214,
 'O/': 216,
 'Oa': 64,
 'U"': 220,
 'Y-': 165,
 'a"': 228,
 'a*': 229,
 'a`': 224,
 'ae': 230,
 "e'": 233,
 'e`': 232,
 'gd': 916,
 'gf': 934,
 'gg': 915,
 'gi': 936,
 'gl': 923,
 'go': 937,
 'gp': 928,
 'gs': 931,
 'gt': 920,
 'gx': 926,
 'i`': 236,
 'n~': 241,
 'o"': 246,
 'o/': 248,
 'o`': 242,
 'ox': 164,
 'qq': 34,
 'so': 167,
 'ss': 223,
 'u"': 252,
 'u`': 249}
DES_S = [[[14, 4, 13, 1, 2, 15, 11, 8, 3, 10, 6, 12, 5, 9, 0, 7],
  [0, 15, 7, 4, 14, 2, 13, 1, 10, 6, 12, 11, 9, 5, 3, 8],
  [4, 1, 14, 8, 13, 6, 2, 11, 15, 12, 9, 7, 3, 10, 5, 0],
  [15, 12, 8, 2, 4, 9, 1, 7, 5, 11, 3, 14, 10, 0, 6, 13]],
 [[15, 1, 8, 14, 6, 11, 3, 4, 9, 7, 2, 13, 12, 0, 5, 10],
  [3, 13, 4, 7, 15, 2, 8, 14, 12, 0, 1, 10, 6, 9, 11, 5],
  [0, 14, 7, 11, 10, 4, 13, 1, 5, 8, 12, 6, 9, 3, 2, 15],
  [13, 8, 10, 1, 3, 15, 4, 2, 11, 6, 7, 12, 0, 5, 14, 9]],
 [[10, 0, 9, 14, 6, 3, 15, 5, 1, 13, 12, 7, 11, 4, 2, 8],
  [13, 7, 0, 9, 3, 4, 6, 10, 2, 8, 5, 14, 12, 11, 15, 1],
  [13, 6, 4, 9, 8, 15, 3, 0, 11, 1, 2, 12, 5, 10, 14, 7],
  [1, 10, 13, 0, 6, 9, 8, 7, 4, 15, 14, 3, 11, 5, 2, 12]],
 [[7, 13, 14, 3, 0, 6, 9, 10, 1, 2, 8, 5, 11, 12, 4, 15],
  [13, 8, 11, 5, 6, 15, 0, 3, 4, 7, 2, 12, 1, 10, 14, 9],
  [10, 6, 9, 0, 12, 11, 7, 13, 15, 1, 3, 14, 5, 2, 8, 4],
  [3, 15, 0, 6, 10, 1, 13, 8, 9, 4, 5, 11, 12, 7, 2, 14]],
 [[2, 12, 4, 1, 7, 10, 11, 6, 8, 5, 3, 15, 13, 0, 14, 9],
  [14, 11, 2, 12, 4, 7, 13, 1, 5, 0, 15, 10, 3, 9, 8, 6],
  [4, 2, 1, 11, 10, 13, 7, 8, 15, 9, 12, 5, 6, 3, 0, 14],
  [11, 8, 12, 7, 1, 14, 2, 13, 6, 15, 0, 9, 10, 4, 5, 3]],
 [[12, 1, 10, 15, 9, 2, 6, 8, 0, 13, 3, 4, 14, 7, 5, 11],
  [10, 15, 4, 2, 7, 12, 9, 5, 6, 1, 13, 14, 0, 11, 3, 8],
  [9, 14, 15, 5, 2, 8, 12, 3, 7, 0, 4, 10, 1, 13, 11, 6],
  [4, 3, 2, 12, 9, 5, 15, 10, 11, 14, 1, 7, 6, 0, 8, 13]],
 [[4, 11, 2, 14, 15, 0, 8, 13, 3, 12, 9, 7, 5, 10, 6, 1],
  [13, 0, 11, 7, 4, 9, 1, 10, 14, 3, 5, 12, 2, 15, 8, 6],
  [1, 4, 11, 13, 12, 3, 7, 14, 10, 15, 6, 8, 0, 5, 9, 2],
  [6, 11, 13, 8, 1, 4, 10, 7, 9, 5, 0, 15, 14, 2, 3, 12]],
 [[13, 2, 8, 4, 6, 15, 11, 1, 10, 9, 3, 14, 5, 0, 12, 7],
  [1, 15, 13, 8, 10, 3, 7, 4, 12, 5, 6, 11, 0, 14, 9, 2],
  [7, 11, 4, 1, 9, 12, 14, 2, 0, 6, 10, 13, 15, 3, 5, 8],
  [2, 1, 14, 7, 4, 10, 8, 13, 15, 12, 9, 0, 3, 5, 6, 11]]]
DES_P = [16, 7, 20, 21, 29, 12, 28, 17, 1, 15, 23, 26, 5, 18, 31, 10, 2, 8, 24, 14, 32, 27, 3, 9, 19, 13, 30, 6, 22,
 11, 4, 25]
TRANSLIT = {198: 4522049,
 216: 79,
 223: 7536755,
 230: 6619233,
 248: 111,
 272: 68,
 273: 100,
 294: 72,
 295: 104,
 305: 105,
 306: 4849737,
 307: 6946921,
 319: 76,
 320: 108,
 321: 76,
 322: 108,
 329: 110,
 330: 78,
 331: 110,
 338: 4522063,
 339: 6619247,
 358: 84,
 359: 116,
 383: 115,
 384: 98,
 385: 66,
 391: 67,
 392: 99,
 393: 68,
 394: 68,
 403: 71,
 437: 90,
 438: 122,
 452: 5898308,
 453: 7995460,
 454: 7995492,
 455: 4849740,
 456: 6946892,
 457: 6946924,
 458: 4849742,
 459: 6946894,
 460: 6946926,
 484: 71,
 485: 103,
 497: 5898308,
 498: 7995460,
 499: 7995492}
NO_STRIP = {432, 431, 494, 495}
HTTP_METHODS = ['OPTIONS', 'GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'TRACE', 'CONNECT', 'PATCH']
HTTP_CODES = {'ACCEPTED': 202,
 'BAD_GATEWAY': 502,
 'BAD_REQUEST': 400,
 'CONFLICT': 409,
 'CONTINUE': 100,
 'CREATED': 201,
 'EXPECTATION_FAILED': 417,
 'FORBIDDEN': 403,
 'FOUND': 302,
 'GATEWAY_TIMEOUT': 504,
 'GONE': 410,
 'INTERNAL_SERVER_ERROR': 500,
 'LENGTH_REQUIRED': 411,
 'METHOD_NOT_ALLOWED': 405,
 'MOVED_PERMANENTLY': 301,
 'MULTIPLE_CHOICES': 300,
 'NON_AUTHORITATIVE': 203,
 'NOT_ACCEPTABLE': 406,
 'NOT_FOUND': 404,
 'NOT_IMPLEMENTED': 501,
 'NOT_MODIFIED': 304,
 'NO_CONTENT': 204,
 'OK': 200,
 'PARTIAL_CONTENT': 206,
 'PAYMENT_REQUIRED': 402,
 'PRECONDITION_FAILED': 412,
 'PROXY_AUTH_REQUIRED': 407,
 'REQUEST_ENTITY_TOO_LARGE': 413,
 'REQUEST_RANGE_UNSAT': 416,
 'REQUEST_TIMEOUT': 408,
 'REQUEST_URI_TOO_LARGE': 414,
 'RESET_CONTENT': 205,
 'SEE_OTHER': 303,
 'SERVICE_UNAVAILABLE': 503,
 'SWITCHING_PROTOCOL': 101,
 'TEMPORARY_REDIRECT': 307,
 'TOO_MANY_REQUESTS': 429,
 'UNAUTHORIZED': 401,
 'UNSUPPORTED_MEDIA_TYPE': 415,
 'USE_PROXY': 305,
 'VERSION_NOT_SUPPORTED': 505}
HTTP_HEADERS = ['Cache-Control', 'Connection', 'Date', 'Pragma', 'Trailer', 'Transfer-Encoding', 'Upgrade', 'Via', 'Warning',
 'Accept', 'Accept-Charset', 'Accept-Encoding', 'Accept-Language', 'Authorization', 'Expect', 'From', 'Host',
 'If-Match', 'If-Modified-Since', 'If-None-Match', 'If-Range', 'If-Unmodified-Since', 'Max-Forwards',
 'Proxy-Authorization', 'Range', 'Referer', 'TE', 'User-Agent', 'Accept-Ranges', 'Age', 'ETag', 'Location',
 'Proxy-Authenticate', 'Retry-After', 'Server', 'Vary', 'WWW-Authenticate', 'Allow', 'Content-Encoding',
 'Content-Language', 'Content-Length', 'Content-Location', 'Content-MD5', 'Content-Range', 'Content-Type',
 'Expires', 'Last-Modified', 'SOAPAction', 'Set-Cookie', 'Cookie', 'Content-Disposition',
 'Access-Control-Allow-Origin', 'Origin', 'Link', 'Refresh', 'Strict-Transport-Security', 'Forwarded',
 'Keep-Alive']
HTTP2 = {'HTTP2_CODE_': {'CANCEL': 8,
                 'COMPRESSION_ERROR': 9,
                 'CONNECT_ERROR': 10,
                 'ENHANCE_YOUR_CALM': 11,
                 'FLOW_CONTROL_ERROR': 3,
                 'FRAME_SIZE_ERROR': 6,
                 'HTTP_1_1_REQUIRED': 13,
                 'INADEQUATE_SECURITY': 12,
                 'INTERNAL_ERROR': 2,
                 'NO_ERROR': 0,
                 'PROTOCOL_ERROR': 1,
                 'REFUSED_STREAM': 7,
                 'SETTINGS_TIMEOUT': 4,
                 'STREAM_CLOSED': 5},
 'HTTP2_FLAG_': {'ACK': 1, 'END_HEADERS': 4, 'END_STREAM': 1, 'NONE': 0, 'PADDED': 8, 'PRIORITY': 32},
 'HTTP2_ID_': {'ENABLE_PUSH': 2,
               'HEADER_TABLE_SIZE': 1,
               'INITIAL_WINDOW_SIZE': 4,
               'MAX_CONCURRENT_STREAMS': 3,
               'MAX_FRAME_SIZE': 5,
               'MAX_HEADER_LIST_SIZE': 6,
               'MAX_STREAM': 2147483647,
               'NO_STREAM': 0},
 'HTTP2_LEN_': {'CONN_WINDOW_SIZE_INIT': 65535,
                'FRAME_HDR': 9,
                'GOAWAY_PAYLOAD_MIN': 8,
                'HDR_TABLE_SIZE_INIT': 4096,
                'MAX_FRAME_SIZE': 16777215,
                'MAX_FRAME_SIZE_INIT': 16384,
                'MAX_SETTINGS_ITEMS': 6,
                'MAX_WINDOW_UPDATE_INCR': 2147483647,
                'NO_PAYLOAD': 0,
                'PING_PAYLOAD': 8,
                'PRIORITY_PAYLOAD': 5,
                'RST_STREAM_PAYLOAD': 4,
                'SETTINGS_ITEM': 6,
                'WINDOW_SIZE_INIT': 65535,
                'WINDOW_SIZE_LIMIT': 2147483647,
                'WINDOW_UPDATE_PAYLOAD': 4},
 'HTTP2_TYPE_': {'CONTINUATION': 9,
                 'DATA': 0,
                 'GOAWAY': 7,
                 'HEADERS': 1,
                 'PING': 6,
                 'PRIORITY': 2,
                 'PUSH_PROMISE': 5,
                 'RST_STREAM': 3,
                 'SETTINGS': 4,
                 'WINDOW_UPDATE': 8}}
