//! Offline stand-in for the `pyo3-ffi` crate: just the CPython 3.12 declarations that
//! /repo/src uses, so that the Rust extension can be built here without the network.
//! Layouts follow /usr/include/python3.12; `mc/rustimpl.py` refuses any other interpreter.
#![allow(non_camel_case_types, non_snake_case, non_upper_case_globals, clippy::all)]
pub use core::ffi::{c_char, c_double, c_int, c_long, c_longlong, c_uchar, c_uint, c_ulong, c_ulonglong, c_void};

pub type Py_ssize_t = isize;
pub type Py_hash_t = Py_ssize_t;

#[repr(C)]
#[derive(Copy, Clone)]
pub struct PyObject {
    pub ob_refcnt: Py_ssize_t,
    pub ob_type: *mut PyTypeObject,
}
unsafe impl Sync for PyObject {}

#[repr(C)]
pub struct PyVarObject {
    pub ob_base: PyObject,
    pub ob_size: Py_ssize_t,
}

pub type allocfunc = unsafe extern "C" fn(*mut PyTypeObject, Py_ssize_t) -> *mut PyObject;
pub type freefunc = unsafe extern "C" fn(*mut c_void);
pub type visitproc = unsafe extern "C" fn(*mut PyObject, *mut c_void) -> c_int;
pub type traverseproc = unsafe extern "C" fn(*mut PyObject, visitproc, *mut c_void) -> c_int;
pub type inquiry = unsafe extern "C" fn(*mut PyObject) -> c_int;
pub type getter = unsafe extern "C" fn(*mut PyObject, *mut c_void) -> *mut PyObject;
pub type setter = unsafe extern "C" fn(*mut PyObject, *mut PyObject, *mut c_void) -> c_int;
pub type destructor = unsafe extern "C" fn(*mut PyObject);
type P = *mut c_void;

#[repr(C)]
pub struct PyTypeObject {
    pub ob_base: PyVarObject,
    pub tp_name: *const c_char,
    pub tp_basicsize: Py_ssize_t,
    pub tp_itemsize: Py_ssize_t,
    pub tp_dealloc: Option<destructor>,
    pub tp_vectorcall_offset: Py_ssize_t,
    pub tp_getattr: P,
    pub tp_setattr: P,
    pub tp_as_async: P,
    pub tp_repr: P,
    pub tp_as_number: P,
    pub tp_as_sequence: P,
    pub tp_as_mapping: P,
    pub tp_hash: P,
    pub tp_call: P,
    pub tp_str: P,
    pub tp_getattro: P,
    pub tp_setattro: P,
    pub tp_as_buffer: P,
    pub tp_flags: c_ulong,
    pub tp_doc: *const c_char,
    pub tp_traverse: P,
    pub tp_clear: P,
    pub tp_richcompare: P,
    pub tp_weaklistoffset: Py_ssize_t,
    pub tp_iter: P,
    pub tp_iternext: P,
    pub tp_methods: P,
    pub tp_members: P,
    pub tp_getset: P,
    pub tp_base: *mut PyTypeObject,
    pub tp_dict: *mut PyObject,
    pub tp_descr_get: P,
    pub tp_descr_set: P,
    pub tp_dictoffset: Py_ssize_t,
    pub tp_init: P,
    pub tp_alloc: Option<allocfunc>,
    pub tp_new: P,
    pub tp_free: Option<freefunc>,
}

pub type PyCFunction = unsafe extern "C" fn(*mut PyObject, *mut PyObject) -> *mut PyObject;
pub type PyCFunctionFast = unsafe extern "C" fn(*mut PyObject, *mut *mut PyObject, Py_ssize_t) -> *mut PyObject;
pub type PyCFunctionWithKeywords = unsafe extern "C" fn(*mut PyObject, *mut PyObject, *mut PyObject) -> *mut PyObject;
pub type PyCMethod =
    unsafe extern "C" fn(*mut PyObject, *mut PyTypeObject, *const *mut PyObject, Py_ssize_t, *mut PyObject) -> *mut PyObject;

#[repr(C)]
#[derive(Copy, Clone)]
pub union PyMethodDefPointer {
    pub PyCFunction: PyCFunction,
    pub PyCFunctionWithKeywords: PyCFunctionWithKeywords,
    pub PyCFunctionFast: PyCFunctionFast,
    pub PyCMethod: PyCMethod,
    pub Void: *mut c_void,
}
impl PyMethodDefPointer {
    pub const fn zeroed() -> Self {
        PyMethodDefPointer { Void: core::ptr::null_mut() }
    }
}

#[repr(C)]
#[derive(Copy, Clone)]
pub struct PyMethodDef {
    pub ml_name: *const c_char,
    pub ml_meth: PyMethodDefPointer,
    pub ml_flags: c_int,
    pub ml_doc: *const c_char,
}
unsafe impl Sync for PyMethodDef {}
impl PyMethodDef {
    pub const fn zeroed() -> Self {
        PyMethodDef { ml_name: core::ptr::null(), ml_meth: PyMethodDefPointer::zeroed(), ml_flags: 0, ml_doc: core::ptr::null() }
    }
}

#[repr(C)]
#[derive(Copy, Clone)]
pub struct PyGetSetDef {
    pub name: *const c_char,
    pub get: Option<getter>,
    pub set: Option<setter>,
    pub doc: *const c_char,
    pub closure: *mut c_void,
}
unsafe impl Sync for PyGetSetDef {}

#[repr(C)]
#[derive(Copy, Clone)]
pub struct PyType_Slot {
    pub slot: c_int,
    pub pfunc: *mut c_void,
}
unsafe impl Sync for PyType_Slot {}

#[repr(C)]
#[derive(Copy, Clone)]
pub struct PyType_Spec {
    pub name: *const c_char,
    pub basicsize: c_int,
    pub itemsize: c_int,
    pub flags: c_uint,
    pub slots: *mut PyType_Slot,
}

#[repr(C)]
pub struct PyModuleDef_Base {
    pub ob_base: PyObject,
    pub m_init: *mut c_void,
    pub m_index: Py_ssize_t,
    pub m_copy: *mut PyObject,
}
pub const PyModuleDef_HEAD_INIT: PyModuleDef_Base = PyModuleDef_Base {
    ob_base: PyObject { ob_refcnt: 1, ob_type: core::ptr::null_mut() },
    m_init: core::ptr::null_mut(),
    m_index: 0,
    m_copy: core::ptr::null_mut(),
};

#[repr(C)]
pub struct PyModuleDef_Slot {
    pub slot: c_int,
    pub value: *mut c_void,
}
unsafe impl Sync for PyModuleDef_Slot {}

#[repr(C)]
pub struct PyModuleDef {
    pub m_base: PyModuleDef_Base,
    pub m_name: *const c_char,
    pub m_doc: *const c_char,
    pub m_size: Py_ssize_t,
    pub m_methods: *mut PyMethodDef,
    pub m_slots: *mut PyModuleDef_Slot,
    pub m_traverse: Option<traverseproc>,
    pub m_clear: Option<inquiry>,
    pub m_free: Option<freefunc>,
}
unsafe impl Sync for PyModuleDef {}

pub const Py_mod_exec: c_int = 2;

pub const METH_VARARGS: c_int = 0x0001;
pub const METH_KEYWORDS: c_int = 0x0002;
pub const METH_NOARGS: c_int = 0x0004;
pub const METH_O: c_int = 0x0008;
pub const METH_CLASS: c_int = 0x0010;
pub const METH_STATIC: c_int = 0x0020;
pub const METH_FASTCALL: c_int = 0x0080;
pub const METH_METHOD: c_int = 0x0200;

pub const Py_LT: c_int = 0;
pub const Py_LE: c_int = 1;
pub const Py_EQ: c_int = 2;
pub const Py_NE: c_int = 3;
pub const Py_GT: c_int = 4;
pub const Py_GE: c_int = 5;

// typeslots.h
pub const Py_nb_absolute: c_int = 6;
pub const Py_nb_add: c_int = 7;
pub const Py_nb_bool: c_int = 9;
pub const Py_nb_floor_divide: c_int = 12;
pub const Py_nb_multiply: c_int = 29;
pub const Py_nb_negative: c_int = 30;
pub const Py_nb_positive: c_int = 32;
pub const Py_nb_remainder: c_int = 34;
pub const Py_nb_subtract: c_int = 36;
pub const Py_nb_true_divide: c_int = 37;
pub const Py_tp_dealloc: c_int = 52;
pub const Py_tp_doc: c_int = 56;
pub const Py_tp_hash: c_int = 59;
pub const Py_tp_methods: c_int = 64;
pub const Py_tp_new: c_int = 65;
pub const Py_tp_repr: c_int = 66;
pub const Py_tp_richcompare: c_int = 67;
pub const Py_tp_str: c_int = 70;
pub const Py_tp_getset: c_int = 73;
pub const Py_tp_free: c_int = 74;

pub const Py_TPFLAGS_DEFAULT: c_ulong = 1 << 18; // HAVE_VERSION_TAG, as in object.h
pub const Py_TPFLAGS_IMMUTABLETYPE: c_ulong = 1 << 8;
const LONG_SUBCLASS: c_ulong = 1 << 24;
const BYTES_SUBCLASS: c_ulong = 1 << 27;
const UNICODE_SUBCLASS: c_ulong = 1 << 28;

extern "C" {
    static mut _Py_NoneStruct: PyObject;
    static mut _Py_TrueStruct: PyObject;
    static mut _Py_FalseStruct: PyObject;
    static mut _Py_NotImplementedStruct: PyObject;
    static mut PyFloat_Type: PyTypeObject;
    pub static mut PyExc_TypeError: *mut PyObject;
    pub static mut PyExc_ValueError: *mut PyObject;
    pub static mut PyExc_ZeroDivisionError: *mut PyObject;
    pub static mut PyExc_OSError: *mut PyObject;
    pub static mut PyExc_RuntimeError: *mut PyObject;
    pub static mut PyExc_OverflowError: *mut PyObject;
    pub static mut PyExc_KeyError: *mut PyObject;

    fn Py_DecRef(o: *mut PyObject);
    fn Py_IncRef(o: *mut PyObject);
    fn PyType_GetFlags(t: *mut PyTypeObject) -> c_ulong;
    fn PyType_IsSubtype(a: *mut PyTypeObject, b: *mut PyTypeObject) -> c_int;
    fn PyCapsule_Import(name: *const c_char, no_block: c_int) -> *mut c_void;
    fn PyTuple_Size(o: *mut PyObject) -> Py_ssize_t;
    fn PyTuple_GetItem(o: *mut PyObject, i: Py_ssize_t) -> *mut PyObject;

    pub fn PyUnicode_InternFromString(s: *const c_char) -> *mut PyObject;
    pub fn PyUnicode_FromStringAndSize(s: *const c_char, n: Py_ssize_t) -> *mut PyObject;
    pub fn PyUnicode_AsUTF8AndSize(o: *mut PyObject, n: *mut Py_ssize_t) -> *const c_char;
    pub fn PyType_GetModule(t: *mut PyTypeObject) -> *mut PyObject;
    pub fn PyType_GetModuleState(t: *mut PyTypeObject) -> *mut c_void;
    pub fn PyType_GetSlot(t: *mut PyTypeObject, s: c_int) -> *mut c_void;
    pub fn PyType_FromModuleAndSpec(m: *mut PyObject, s: *mut PyType_Spec, bases: *mut PyObject) -> *mut PyObject;
    pub fn PyModule_GetState(m: *mut PyObject) -> *mut c_void;
    pub fn PyModule_AddType(m: *mut PyObject, t: *mut PyTypeObject) -> c_int;
    pub fn PyModuleDef_Init(d: *mut PyModuleDef) -> *mut PyObject;
    pub fn PyObject_GetAttrString(o: *mut PyObject, s: *const c_char) -> *mut PyObject;
    pub fn PyObject_SetAttrString(o: *mut PyObject, s: *const c_char, v: *mut PyObject) -> c_int;
    pub fn PyNumber_TrueDivide(a: *mut PyObject, b: *mut PyObject) -> *mut PyObject;
    pub fn PyObject_Repr(o: *mut PyObject) -> *mut PyObject;
    pub fn PyObject_IsInstance(o: *mut PyObject, c: *mut PyObject) -> c_int;
    pub fn PyObject_RichCompareBool(a: *mut PyObject, b: *mut PyObject, op: c_int) -> c_int;
    pub fn PyObject_Call(f: *mut PyObject, a: *mut PyObject, k: *mut PyObject) -> *mut PyObject;
    pub fn PyObject_CallOneArg(f: *mut PyObject, a: *mut PyObject) -> *mut PyObject;
    pub fn PyObject_CallNoArgs(f: *mut PyObject) -> *mut PyObject;
    pub fn PyObject_CallMethod(o: *mut PyObject, name: *const c_char, fmt: *const c_char, ...) -> *mut PyObject;
    fn PyObject_VectorcallMethod(name: *mut PyObject, args: *const *mut PyObject, nargsf: usize, kw: *mut PyObject) -> *mut PyObject;
    pub fn PyArg_ParseTupleAndKeywords(a: *mut PyObject, k: *mut PyObject, fmt: *const c_char, kw: *mut *mut c_char, ...) -> c_int;
    pub fn PyImport_ImportModule(s: *const c_char) -> *mut PyObject;
    pub fn PyTuple_Pack(n: Py_ssize_t, ...) -> *mut PyObject;
    pub fn PyTuple_New(n: Py_ssize_t) -> *mut PyObject;
    pub fn PyDict_New() -> *mut PyObject;
    pub fn PyDict_Size(o: *mut PyObject) -> Py_ssize_t;
    pub fn PyDict_SetItemString(o: *mut PyObject, k: *const c_char, v: *mut PyObject) -> c_int;
    pub fn PyDict_Next(o: *mut PyObject, pos: *mut Py_ssize_t, k: *mut *mut PyObject, v: *mut *mut PyObject) -> c_int;
    pub fn PyErr_Clear();
    pub fn PyErr_Occurred() -> *mut PyObject;
    pub fn PyErr_SetObject(t: *mut PyObject, v: *mut PyObject);
    pub fn PyErr_ExceptionMatches(t: *mut PyObject) -> c_int;
    pub fn PyErr_NewExceptionWithDoc(n: *const c_char, d: *const c_char, b: *mut PyObject, dict: *mut PyObject) -> *mut PyObject;
    pub fn PyLong_FromLong(v: c_long) -> *mut PyObject;
    pub fn PyLong_FromLongLong(v: c_longlong) -> *mut PyObject;
    pub fn PyLong_FromUnsignedLong(v: c_ulong) -> *mut PyObject;
    pub fn PyLong_AsLong(o: *mut PyObject) -> c_long;
    pub fn PyLong_AsLongLong(o: *mut PyObject) -> c_longlong;
    pub fn _PyLong_AsByteArray(o: *mut PyLongObject, b: *mut c_uchar, n: usize, le: c_int, signed: c_int) -> c_int;
    pub fn _PyLong_FromByteArray(b: *const c_uchar, n: usize, le: c_int, signed: c_int) -> *mut PyObject;
    pub fn PyFloat_FromDouble(v: c_double) -> *mut PyObject;
    pub fn PyFloat_AsDouble(o: *mut PyObject) -> c_double;
    pub fn PyBytes_Size(o: *mut PyObject) -> Py_ssize_t;
    pub fn PyBytes_AsString(o: *mut PyObject) -> *mut c_char;
    pub fn PyBytes_FromStringAndSize(s: *const c_char, n: Py_ssize_t) -> *mut PyObject;
}

#[repr(C)]
pub struct PyLongObject {
    _private: [u8; 0],
}

pub unsafe fn Py_TYPE(o: *mut PyObject) -> *mut PyTypeObject {
    (*o).ob_type
}
pub unsafe fn Py_DECREF(o: *mut PyObject) {
    Py_DecRef(o)
}
pub unsafe fn Py_INCREF(o: *mut PyObject) {
    Py_IncRef(o)
}
pub unsafe fn Py_CLEAR(p: *mut *mut PyObject) {
    let o = *p;
    if !o.is_null() {
        *p = core::ptr::null_mut();
        Py_DecRef(o);
    }
}
pub unsafe fn Py_None() -> *mut PyObject {
    &raw mut _Py_NoneStruct
}
pub unsafe fn Py_True() -> *mut PyObject {
    &raw mut _Py_TrueStruct
}
pub unsafe fn Py_False() -> *mut PyObject {
    &raw mut _Py_FalseStruct
}
pub unsafe fn Py_NotImplemented() -> *mut PyObject {
    &raw mut _Py_NotImplementedStruct
}
pub unsafe fn Py_IsNone(o: *mut PyObject) -> c_int {
    (o == Py_None()) as c_int
}
pub unsafe fn Py_IsTrue(o: *mut PyObject) -> c_int {
    (o == Py_True()) as c_int
}
unsafe fn has_flag(o: *mut PyObject, f: c_ulong) -> c_int {
    (PyType_GetFlags(Py_TYPE(o)) & f != 0) as c_int
}
unsafe fn type_check(o: *mut PyObject, t: *mut PyTypeObject) -> c_int {
    (Py_TYPE(o) == t || PyType_IsSubtype(Py_TYPE(o), t) != 0) as c_int
}
pub unsafe fn PyLong_Check(o: *mut PyObject) -> c_int {
    has_flag(o, LONG_SUBCLASS)
}
pub unsafe fn PyBytes_Check(o: *mut PyObject) -> c_int {
    has_flag(o, BYTES_SUBCLASS)
}
pub unsafe fn PyUnicode_Check(o: *mut PyObject) -> c_int {
    has_flag(o, UNICODE_SUBCLASS)
}
pub unsafe fn PyFloat_Check(o: *mut PyObject) -> c_int {
    type_check(o, &raw mut PyFloat_Type)
}
pub unsafe fn PyTuple_GET_SIZE(o: *mut PyObject) -> Py_ssize_t {
    PyTuple_Size(o)
}
pub unsafe fn PyTuple_GET_ITEM(o: *mut PyObject, i: Py_ssize_t) -> *mut PyObject {
    PyTuple_GetItem(o, i)
}
const OFFSET_FLAG: usize = 1 << (8 * core::mem::size_of::<usize>() - 1);
pub const fn PyVectorcall_NARGS(n: usize) -> Py_ssize_t {
    (n & !OFFSET_FLAG) as Py_ssize_t
}
pub unsafe fn PyObject_CallMethodNoArgs(o: *mut PyObject, name: *mut PyObject) -> *mut PyObject {
    PyObject_VectorcallMethod(name, &o, 1 | OFFSET_FLAG, core::ptr::null_mut())
}
pub unsafe fn PyObject_CallMethodOneArg(o: *mut PyObject, name: *mut PyObject, arg: *mut PyObject) -> *mut PyObject {
    let args = [o, arg];
    PyObject_VectorcallMethod(name, args.as_ptr(), 2 | OFFSET_FLAG, core::ptr::null_mut())
}

// datetime.h
#[repr(C)]
pub struct PyDateTime_CAPI {
    pub DateType: *mut PyTypeObject,
    pub DateTimeType: *mut PyTypeObject,
    pub TimeType: *mut PyTypeObject,
    pub DeltaType: *mut PyTypeObject,
    pub TZInfoType: *mut PyTypeObject,
    pub TimeZone_UTC: *mut PyObject,
    pub Date_FromDate: unsafe extern "C" fn(c_int, c_int, c_int, *mut PyTypeObject) -> *mut PyObject,
    pub DateTime_FromDateAndTime:
        unsafe extern "C" fn(c_int, c_int, c_int, c_int, c_int, c_int, c_int, *mut PyObject, *mut PyTypeObject) -> *mut PyObject,
    pub Time_FromTime: unsafe extern "C" fn(c_int, c_int, c_int, c_int, *mut PyObject, *mut PyTypeObject) -> *mut PyObject,
    pub Delta_FromDelta: unsafe extern "C" fn(c_int, c_int, c_int, c_int, *mut PyTypeObject) -> *mut PyObject,
    pub TimeZone_FromTimeZone: unsafe extern "C" fn(*mut PyObject, *mut PyObject) -> *mut PyObject,
    pub DateTime_FromTimestamp: unsafe extern "C" fn(*mut PyTypeObject, *mut PyObject, *mut PyObject) -> *mut PyObject,
    pub Date_FromTimestamp: unsafe extern "C" fn(*mut PyTypeObject, *mut PyObject) -> *mut PyObject,
    pub DateTime_FromDateAndTimeAndFold:
        unsafe extern "C" fn(c_int, c_int, c_int, c_int, c_int, c_int, c_int, *mut PyObject, c_int, *mut PyTypeObject) -> *mut PyObject,
    pub Time_FromTimeAndFold:
        unsafe extern "C" fn(c_int, c_int, c_int, c_int, *mut PyObject, c_int, *mut PyTypeObject) -> *mut PyObject,
}
unsafe impl Sync for PyDateTime_CAPI {}

static mut API: *mut PyDateTime_CAPI = core::ptr::null_mut();
pub unsafe fn PyDateTime_IMPORT() {
    API = PyCapsule_Import(c"datetime.datetime_CAPI".as_ptr(), 0).cast();
}
pub unsafe fn PyDateTimeAPI() -> *mut PyDateTime_CAPI {
    API
}

#[repr(C)]
struct DateObj {
    ob: PyObject,
    hashcode: Py_hash_t,
    hastzinfo: c_char,
    data: [c_uchar; 4],
}
#[repr(C)]
struct TimeObj {
    ob: PyObject,
    hashcode: Py_hash_t,
    hastzinfo: c_char,
    data: [c_uchar; 6],
    fold: c_uchar,
    tzinfo: *mut PyObject,
}
#[repr(C)]
struct DateTimeObj {
    ob: PyObject,
    hashcode: Py_hash_t,
    hastzinfo: c_char,
    data: [c_uchar; 10],
    fold: c_uchar,
    tzinfo: *mut PyObject,
}
#[repr(C)]
struct DeltaObj {
    ob: PyObject,
    hashcode: Py_hash_t,
    days: c_int,
    seconds: c_int,
    microseconds: c_int,
}
pub unsafe fn PyDateTime_GET_YEAR(o: *mut PyObject) -> c_int {
    let d = &(*o.cast::<DateObj>()).data;
    (d[0] as c_int) << 8 | d[1] as c_int
}
pub unsafe fn PyDateTime_GET_MONTH(o: *mut PyObject) -> c_int {
    (*o.cast::<DateObj>()).data[2] as c_int
}
pub unsafe fn PyDateTime_GET_DAY(o: *mut PyObject) -> c_int {
    (*o.cast::<DateObj>()).data[3] as c_int
}
pub unsafe fn PyDateTime_DATE_GET_HOUR(o: *mut PyObject) -> c_int {
    (*o.cast::<DateTimeObj>()).data[4] as c_int
}
pub unsafe fn PyDateTime_DATE_GET_MINUTE(o: *mut PyObject) -> c_int {
    (*o.cast::<DateTimeObj>()).data[5] as c_int
}
pub unsafe fn PyDateTime_DATE_GET_SECOND(o: *mut PyObject) -> c_int {
    (*o.cast::<DateTimeObj>()).data[6] as c_int
}
unsafe fn us(d: &[c_uchar]) -> c_int {
    (d[0] as c_int) << 16 | (d[1] as c_int) << 8 | d[2] as c_int
}
pub unsafe fn PyDateTime_DATE_GET_MICROSECOND(o: *mut PyObject) -> c_int {
    let d = &(*o.cast::<DateTimeObj>()).data;
    us(&d[7..10])
}
pub unsafe fn PyDateTime_DATE_GET_FOLD(o: *mut PyObject) -> c_uchar {
    (*o.cast::<DateTimeObj>()).fold
}
pub unsafe fn PyDateTime_DATE_GET_TZINFO(o: *mut PyObject) -> *mut PyObject {
    let d = &*o.cast::<DateTimeObj>();
    if d.hastzinfo != 0 { d.tzinfo } else { Py_None() }
}
pub unsafe fn PyDateTime_TIME_GET_HOUR(o: *mut PyObject) -> c_int {
    (*o.cast::<TimeObj>()).data[0] as c_int
}
pub unsafe fn PyDateTime_TIME_GET_MINUTE(o: *mut PyObject) -> c_int {
    (*o.cast::<TimeObj>()).data[1] as c_int
}
pub unsafe fn PyDateTime_TIME_GET_SECOND(o: *mut PyObject) -> c_int {
    (*o.cast::<TimeObj>()).data[2] as c_int
}
pub unsafe fn PyDateTime_TIME_GET_MICROSECOND(o: *mut PyObject) -> c_int {
    let d = &(*o.cast::<TimeObj>()).data;
    us(&d[3..6])
}
pub unsafe fn PyDateTime_TIME_GET_TZINFO(o: *mut PyObject) -> *mut PyObject {
    let d = &*o.cast::<TimeObj>();
    if d.hastzinfo != 0 { d.tzinfo } else { Py_None() }
}
pub unsafe fn PyDateTime_DELTA_GET_DAYS(o: *mut PyObject) -> c_int {
    (*o.cast::<DeltaObj>()).days
}
pub unsafe fn PyDateTime_DELTA_GET_SECONDS(o: *mut PyObject) -> c_int {
    (*o.cast::<DeltaObj>()).seconds
}
pub unsafe fn PyDateTime_DELTA_GET_MICROSECONDS(o: *mut PyObject) -> c_int {
    (*o.cast::<DeltaObj>()).microseconds
}
pub unsafe fn PyDate_Check(o: *mut PyObject) -> c_int {
    type_check(o, (*API).DateType)
}
pub unsafe fn PyDateTime_Check(o: *mut PyObject) -> c_int {
    type_check(o, (*API).DateTimeType)
}
pub unsafe fn PyTime_Check(o: *mut PyObject) -> c_int {
    type_check(o, (*API).TimeType)
}
pub unsafe fn PyDelta_Check(o: *mut PyObject) -> c_int {
    type_check(o, (*API).DeltaType)
}
