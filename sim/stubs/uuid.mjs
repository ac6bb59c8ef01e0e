export const v4 = () => __SIM__.uuid();
export const v1 = () => __SIM__.uuid();
export default { v4, v1 };
