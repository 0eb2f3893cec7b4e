package main

import "github.com/indigo-web/indigo/http/status"

// named codes: RFC 9110 and the IANA registry (439 is the server's own signal)
var codes = []struct {
	name string
	got  status.Code
	want int
}{
	{"Continue", status.Continue, 100},
	{"SwitchingProtocols", status.SwitchingProtocols, 101},
	{"Processing", status.Processing, 102},
	{"EarlyHints", status.EarlyHints, 103},
	{"OK", status.OK, 200},
	{"Created", status.Created, 201},
	{"Accepted", status.Accepted, 202},
	{"NonAuthoritativeInfo", status.NonAuthoritativeInfo, 203},
	{"NoContent", status.NoContent, 204},
	{"ResetContent", status.ResetContent, 205},
	{"PartialContent", status.PartialContent, 206},
	{"MultiStatus", status.MultiStatus, 207},
	{"AlreadyReported", status.AlreadyReported, 208},
	{"IMUsed", status.IMUsed, 226},
	{"MultipleChoices", status.MultipleChoices, 300},
	{"MovedPermanently", status.MovedPermanently, 301},
	{"Found", status.Found, 302},
	{"SeeOther", status.SeeOther, 303},
	{"NotModified", status.NotModified, 304},
	{"UseProxy", status.UseProxy, 305},
	{"TemporaryRedirect", status.TemporaryRedirect, 307},
	{"PermanentRedirect", status.PermanentRedirect, 308},
	{"BadRequest", status.BadRequest, 400},
	{"Unauthorized", status.Unauthorized, 401},
	{"PaymentRequired", status.PaymentRequired, 402},
	{"Forbidden", status.Forbidden, 403},
	{"NotFound", status.NotFound, 404},
	{"MethodNotAllowed", status.MethodNotAllowed, 405},
	{"NotAcceptable", status.NotAcceptable, 406},
	{"ProxyAuthRequired", status.ProxyAuthRequired, 407},
	{"RequestTimeout", status.RequestTimeout, 408},
	{"Conflict", status.Conflict, 409},
	{"Gone", status.Gone, 410},
	{"LengthRequired", status.LengthRequired, 411},
	{"PreconditionFailed", status.PreconditionFailed, 412},
	{"RequestEntityTooLarge", status.RequestEntityTooLarge, 413},
	{"RequestURITooLong", status.RequestURITooLong, 414},
	{"UnsupportedMediaType", status.UnsupportedMediaType, 415},
	{"RequestedRangeNotSatisfiable", status.RequestedRangeNotSatisfiable, 416},
	{"ExpectationFailed", status.ExpectationFailed, 417},
	{"Teapot", status.Teapot, 418},
	{"MisdirectedRequest", status.MisdirectedRequest, 421},
	{"UnprocessableEntity", status.UnprocessableEntity, 422},
	{"Locked", status.Locked, 423},
	{"FailedDependency", status.FailedDependency, 424},
	{"TooEarly", status.TooEarly, 425},
	{"UpgradeRequired", status.UpgradeRequired, 426},
	{"PreconditionRequired", status.PreconditionRequired, 428},
	{"TooManyRequests", status.TooManyRequests, 429},
	{"HeaderFieldsTooLarge", status.HeaderFieldsTooLarge, 431},
	{"CloseConnection", status.CloseConnection, 439},
	{"UnavailableForLegalReasons", status.UnavailableForLegalReasons, 451},
	{"InternalServerError", status.InternalServerError, 500},
	{"NotImplemented", status.NotImplemented, 501},
	{"BadGateway", status.BadGateway, 502},
	{"ServiceUnavailable", status.ServiceUnavailable, 503},
	{"GatewayTimeout", status.GatewayTimeout, 504},
	{"HTTPVersionNotSupported", status.HTTPVersionNotSupported, 505},
	{"VariantAlsoNegotiates", status.VariantAlsoNegotiates, 506},
	{"InsufficientStorage", status.InsufficientStorage, 507},
	{"LoopDetected", status.LoopDetected, 508},
	{"NotExtended", status.NotExtended, 510},
	{"NetworkAuthenticationRequired", status.NetworkAuthenticationRequired, 511},
}

// errors and the code a client must see for each
var errs = []struct {
	name string
	err  error
	want int
}{
	{"ErrConnectionTimeout", status.ErrConnectionTimeout, 408},
	{"ErrCloseConnection", status.ErrCloseConnection, 439},
	{"ErrShutdown", status.ErrShutdown, 439},
	{"ErrGracefulShutdown", status.ErrGracefulShutdown, 439},
	{"ErrBadRequest", status.ErrBadRequest, 400},
	{"ErrTooLongRequestLine", status.ErrTooLongRequestLine, 400},
	{"ErrURIDecoding", status.ErrURIDecoding, 400},
	{"ErrBadQuery", status.ErrBadQuery, 400},
	{"ErrNotFound", status.ErrNotFound, 404},
	{"ErrInternalServerError", status.ErrInternalServerError, 500},
	{"ErrNotImplemented", status.ErrNotImplemented, 501},
	{"ErrMethodNotImplemented", status.ErrMethodNotImplemented, 501},
	{"ErrMethodNotAllowed", status.ErrMethodNotAllowed, 405},
	{"ErrTooLarge", status.ErrTooLarge, 413},
	{"ErrBodyTooLarge", status.ErrBodyTooLarge, 413},
	{"ErrRequestEntityTooLarge", status.ErrRequestEntityTooLarge, 413},
	{"ErrHeaderFieldsTooLarge", status.ErrHeaderFieldsTooLarge, 431},
	{"ErrHeaderKeyTooLarge", status.ErrHeaderKeyTooLarge, 431},
	{"ErrHeaderValueTooLarge", status.ErrHeaderValueTooLarge, 431},
	{"ErrTooManyHeaders", status.ErrTooManyHeaders, 431},
	{"ErrRequestHeaderFieldsTooLarge", status.ErrRequestHeaderFieldsTooLarge, 431},
	{"ErrURITooLong", status.ErrURITooLong, 414},
	{"ErrRequestURITooLong", status.ErrRequestURITooLong, 414},
	{"ErrUnsupportedProtocol", status.ErrUnsupportedProtocol, 505},
	{"ErrHTTPVersionNotSupported", status.ErrHTTPVersionNotSupported, 505},
	{"ErrUnauthorized", status.ErrUnauthorized, 401},
	{"ErrPaymentRequired", status.ErrPaymentRequired, 402},
	{"ErrForbidden", status.ErrForbidden, 403},
	{"ErrNotAcceptable", status.ErrNotAcceptable, 406},
	{"ErrProxyAuthRequired", status.ErrProxyAuthRequired, 407},
	{"ErrRequestTimeout", status.ErrRequestTimeout, 408},
	{"ErrConflict", status.ErrConflict, 409},
	{"ErrGone", status.ErrGone, 410},
	{"ErrLengthRequired", status.ErrLengthRequired, 411},
	{"ErrPreconditionFailed", status.ErrPreconditionFailed, 412},
	{"ErrUnsupportedMediaType", status.ErrUnsupportedMediaType, 415},
	{"ErrUnsupportedEncoding", status.ErrUnsupportedEncoding, 415},
	{"ErrRequestedRangeNotSatisfiable", status.ErrRequestedRangeNotSatisfiable, 416},
	{"ErrExpectationFailed", status.ErrExpectationFailed, 417},
	{"ErrTeapot", status.ErrTeapot, 418},
	{"ErrMisdirectedRequest", status.ErrMisdirectedRequest, 421},
	{"ErrUnprocessableEntity", status.ErrUnprocessableEntity, 422},
	{"ErrLocked", status.ErrLocked, 423},
	{"ErrFailedDependency", status.ErrFailedDependency, 424},
	{"ErrTooEarly", status.ErrTooEarly, 425},
	{"ErrUpgradeRequired", status.ErrUpgradeRequired, 426},
	{"ErrPreconditionRequired", status.ErrPreconditionRequired, 428},
	{"ErrTooManyRequests", status.ErrTooManyRequests, 429},
	{"ErrUnavailableForLegalReasons", status.ErrUnavailableForLegalReasons, 451},
	{"ErrBadGateway", status.ErrBadGateway, 502},
	{"ErrServiceUnavailable", status.ErrServiceUnavailable, 503},
	{"ErrGatewayTimeout", status.ErrGatewayTimeout, 504},
	{"ErrVariantAlsoNegotiates", status.ErrVariantAlsoNegotiates, 506},
	{"ErrInsufficientStorage", status.ErrInsufficientStorage, 507},
	{"ErrLoopDetected", status.ErrLoopDetected, 508},
	{"ErrNotExtended", status.ErrNotExtended, 510},
	{"ErrNetworkAuthenticationRequired", status.ErrNetworkAuthenticationRequired, 511},
}

// media types by extension, as registered
var exts = map[string]string{
	".avif": "image/avif",
	".css":  "text/css; charset=utf-8",
	".gif":  "image/gif",
	".htm":  "text/html; charset=utf-8",
	".html": "text/html; charset=utf-8",
	".jpeg": "image/jpeg",
	".jpg":  "image/jpeg",
	".js":   "text/javascript; charset=utf-8",
	".json": "application/json",
	".mjs":  "text/javascript; charset=utf-8",
	".pdf":  "application/pdf",
	".png":  "image/png",
	".svg":  "image/svg+xml",
	".wasm": "application/wasm",
	".webp": "image/webp",
	".xml":  "text/xml; charset=utf-8",
	".gz":   "application/gzip",
	".sql":  "application/sql",
	".tzif": "application/tzif",
	".yaml": "application/yaml",
	".xfdf": "application/xfdf",
	".zip":  "application/zip",
	".zlib": "application/zlib",
	".zstd": "application/zstd",
	".ico":  "image/vnd.microsoft.icon",
}
